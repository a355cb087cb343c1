m={"*Table":("Table","*g.Table"),"[]byte":("ByteSlice","[]byte"),"[]uint8":("Uint8Slice","[]uint8"),"bool":("Bool","bool"),"byte":("Byte","byte"),
"float32":("Float32","float32"),"float64":("Float64","float64"),"int":("Int","int"),"int16":("Int16","int16"),"int32":("Int32","int32"),"int64":("Int64","int64"),"int8":("Int8","int8"),
"rune":("Rune","rune"),"string":("String","string"),"time.Time":("Time","time.Time"),"uint":("Uint","uint"),"uint16":("Uint16","uint16"),"uint32":("Uint32","uint32"),"uint64":("Uint64","uint64"),"uint8":("Uint8","uint8")}
o=['package main','','// Generated by tools/genacc.py: dispatch to the type-specific accessors by column type.','','import (','\t"time"','','\tg "github.com/urban-wombat/gotables"',')','',
'type accessor struct {',
'\tsetN  func(t *g.Table, c string, r int, v interface{}) error',
'\tsetI  func(t *g.Table, c int, r int, v interface{}) error',
'\tmsetN func(t *g.Table, c string, r int, v interface{})',
'\tmsetI func(t *g.Table, c int, r int, v interface{})',
'\tgetN  func(t *g.Table, c string, r int) (interface{}, error)',
'\tgetI  func(t *g.Table, c int, r int) (interface{}, error)',
'\tmgetN func(t *g.Table, c string, r int) interface{}',
'\tmgetI func(t *g.Table, c int, r int) interface{}',
'}','','var accessors = map[string]accessor{']
for t,(n,gt) in m.items():
    o.append(f'\t"{t}": {{')
    o.append(f'\t\tsetN:  func(t *g.Table, c string, r int, v interface{{}}) error {{ x, _ := v.({gt}); return t.Set{n}(c, r, x) }},')
    o.append(f'\t\tsetI:  func(t *g.Table, c int, r int, v interface{{}}) error {{ x, _ := v.({gt}); return t.Set{n}ByColIndex(c, r, x) }},')
    o.append(f'\t\tmsetN: func(t *g.Table, c string, r int, v interface{{}}) {{ x, _ := v.({gt}); t.Set{n}MustSet(c, r, x) }},')
    o.append(f'\t\tmsetI: func(t *g.Table, c int, r int, v interface{{}}) {{ x, _ := v.({gt}); t.Set{n}ByColIndexMustSet(c, r, x) }},')
    o.append(f'\t\tgetN:  func(t *g.Table, c string, r int) (interface{{}}, error) {{ return t.Get{n}(c, r) }},')
    o.append(f'\t\tgetI:  func(t *g.Table, c int, r int) (interface{{}}, error) {{ return t.Get{n}ByColIndex(c, r) }},')
    o.append(f'\t\tmgetN: func(t *g.Table, c string, r int) interface{{}} {{ return t.Get{n}MustGet(c, r) }},')
    o.append(f'\t\tmgetI: func(t *g.Table, c int, r int) interface{{}} {{ return t.Get{n}ByColIndexMustGet(c, r) }},')
    o.append('\t},')
o.append('}'); o.append(''); o.append('var _ time.Time')
open('/verif/harness/accessors.go','w').write('\n'.join(o)+'\n')
