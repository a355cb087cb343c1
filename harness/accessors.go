package main

// Generated by tools/genacc.py: dispatch to the type-specific accessors by column type.

import (
	"time"

	g "github.com/urban-wombat/gotables"
)

type accessor struct {
	setN  func(t *g.Table, c string, r int, v interface{}) error
	setI  func(t *g.Table, c int, r int, v interface{}) error
	msetN func(t *g.Table, c string, r int, v interface{})
	msetI func(t *g.Table, c int, r int, v interface{})
	getN  func(t *g.Table, c string, r int) (interface{}, error)
	getI  func(t *g.Table, c int, r int) (interface{}, error)
	mgetN func(t *g.Table, c string, r int) interface{}
	mgetI func(t *g.Table, c int, r int) interface{}
}

var accessors = map[string]accessor{
	"*Table": {
		setN: func(t *g.Table, c string, r int, v interface{}) error {
			x, _ := v.(*g.Table)
			return t.SetTable(c, r, x)
		},
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(*g.Table)
			return t.SetTableByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(*g.Table); t.SetTableMustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) {
			x, _ := v.(*g.Table)
			t.SetTableByColIndexMustSet(c, r, x)
		},
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetTable(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetTableByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetTableMustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetTableByColIndexMustGet(c, r) },
	},
	"[]byte": {
		setN: func(t *g.Table, c string, r int, v interface{}) error {
			x, _ := v.([]byte)
			return t.SetByteSlice(c, r, x)
		},
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.([]byte)
			return t.SetByteSliceByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.([]byte); t.SetByteSliceMustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) {
			x, _ := v.([]byte)
			t.SetByteSliceByColIndexMustSet(c, r, x)
		},
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetByteSlice(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetByteSliceByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetByteSliceMustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetByteSliceByColIndexMustGet(c, r) },
	},
	"[]uint8": {
		setN: func(t *g.Table, c string, r int, v interface{}) error {
			x, _ := v.([]uint8)
			return t.SetUint8Slice(c, r, x)
		},
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.([]uint8)
			return t.SetUint8SliceByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.([]uint8); t.SetUint8SliceMustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) {
			x, _ := v.([]uint8)
			t.SetUint8SliceByColIndexMustSet(c, r, x)
		},
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetUint8Slice(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetUint8SliceByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetUint8SliceMustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetUint8SliceByColIndexMustGet(c, r) },
	},
	"bool": {
		setN: func(t *g.Table, c string, r int, v interface{}) error { x, _ := v.(bool); return t.SetBool(c, r, x) },
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(bool)
			return t.SetBoolByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(bool); t.SetBoolMustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) { x, _ := v.(bool); t.SetBoolByColIndexMustSet(c, r, x) },
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetBool(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetBoolByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetBoolMustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetBoolByColIndexMustGet(c, r) },
	},
	"byte": {
		setN: func(t *g.Table, c string, r int, v interface{}) error { x, _ := v.(byte); return t.SetByte(c, r, x) },
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(byte)
			return t.SetByteByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(byte); t.SetByteMustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) { x, _ := v.(byte); t.SetByteByColIndexMustSet(c, r, x) },
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetByte(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetByteByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetByteMustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetByteByColIndexMustGet(c, r) },
	},
	"float32": {
		setN: func(t *g.Table, c string, r int, v interface{}) error {
			x, _ := v.(float32)
			return t.SetFloat32(c, r, x)
		},
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(float32)
			return t.SetFloat32ByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(float32); t.SetFloat32MustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) {
			x, _ := v.(float32)
			t.SetFloat32ByColIndexMustSet(c, r, x)
		},
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetFloat32(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetFloat32ByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetFloat32MustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetFloat32ByColIndexMustGet(c, r) },
	},
	"float64": {
		setN: func(t *g.Table, c string, r int, v interface{}) error {
			x, _ := v.(float64)
			return t.SetFloat64(c, r, x)
		},
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(float64)
			return t.SetFloat64ByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(float64); t.SetFloat64MustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) {
			x, _ := v.(float64)
			t.SetFloat64ByColIndexMustSet(c, r, x)
		},
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetFloat64(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetFloat64ByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetFloat64MustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetFloat64ByColIndexMustGet(c, r) },
	},
	"int": {
		setN: func(t *g.Table, c string, r int, v interface{}) error { x, _ := v.(int); return t.SetInt(c, r, x) },
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(int)
			return t.SetIntByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(int); t.SetIntMustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) { x, _ := v.(int); t.SetIntByColIndexMustSet(c, r, x) },
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetInt(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetIntByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetIntMustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetIntByColIndexMustGet(c, r) },
	},
	"int16": {
		setN: func(t *g.Table, c string, r int, v interface{}) error { x, _ := v.(int16); return t.SetInt16(c, r, x) },
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(int16)
			return t.SetInt16ByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(int16); t.SetInt16MustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) { x, _ := v.(int16); t.SetInt16ByColIndexMustSet(c, r, x) },
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetInt16(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetInt16ByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetInt16MustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetInt16ByColIndexMustGet(c, r) },
	},
	"int32": {
		setN: func(t *g.Table, c string, r int, v interface{}) error { x, _ := v.(int32); return t.SetInt32(c, r, x) },
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(int32)
			return t.SetInt32ByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(int32); t.SetInt32MustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) { x, _ := v.(int32); t.SetInt32ByColIndexMustSet(c, r, x) },
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetInt32(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetInt32ByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetInt32MustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetInt32ByColIndexMustGet(c, r) },
	},
	"int64": {
		setN: func(t *g.Table, c string, r int, v interface{}) error { x, _ := v.(int64); return t.SetInt64(c, r, x) },
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(int64)
			return t.SetInt64ByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(int64); t.SetInt64MustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) { x, _ := v.(int64); t.SetInt64ByColIndexMustSet(c, r, x) },
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetInt64(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetInt64ByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetInt64MustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetInt64ByColIndexMustGet(c, r) },
	},
	"int8": {
		setN: func(t *g.Table, c string, r int, v interface{}) error { x, _ := v.(int8); return t.SetInt8(c, r, x) },
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(int8)
			return t.SetInt8ByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(int8); t.SetInt8MustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) { x, _ := v.(int8); t.SetInt8ByColIndexMustSet(c, r, x) },
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetInt8(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetInt8ByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetInt8MustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetInt8ByColIndexMustGet(c, r) },
	},
	"rune": {
		setN: func(t *g.Table, c string, r int, v interface{}) error { x, _ := v.(rune); return t.SetRune(c, r, x) },
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(rune)
			return t.SetRuneByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(rune); t.SetRuneMustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) { x, _ := v.(rune); t.SetRuneByColIndexMustSet(c, r, x) },
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetRune(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetRuneByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetRuneMustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetRuneByColIndexMustGet(c, r) },
	},
	"string": {
		setN: func(t *g.Table, c string, r int, v interface{}) error {
			x, _ := v.(string)
			return t.SetString(c, r, x)
		},
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(string)
			return t.SetStringByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(string); t.SetStringMustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) {
			x, _ := v.(string)
			t.SetStringByColIndexMustSet(c, r, x)
		},
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetString(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetStringByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetStringMustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetStringByColIndexMustGet(c, r) },
	},
	"time.Time": {
		setN: func(t *g.Table, c string, r int, v interface{}) error {
			x, _ := v.(time.Time)
			return t.SetTime(c, r, x)
		},
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(time.Time)
			return t.SetTimeByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(time.Time); t.SetTimeMustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) {
			x, _ := v.(time.Time)
			t.SetTimeByColIndexMustSet(c, r, x)
		},
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetTime(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetTimeByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetTimeMustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetTimeByColIndexMustGet(c, r) },
	},
	"uint": {
		setN: func(t *g.Table, c string, r int, v interface{}) error { x, _ := v.(uint); return t.SetUint(c, r, x) },
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(uint)
			return t.SetUintByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(uint); t.SetUintMustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) { x, _ := v.(uint); t.SetUintByColIndexMustSet(c, r, x) },
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetUint(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetUintByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetUintMustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetUintByColIndexMustGet(c, r) },
	},
	"uint16": {
		setN: func(t *g.Table, c string, r int, v interface{}) error {
			x, _ := v.(uint16)
			return t.SetUint16(c, r, x)
		},
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(uint16)
			return t.SetUint16ByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(uint16); t.SetUint16MustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) {
			x, _ := v.(uint16)
			t.SetUint16ByColIndexMustSet(c, r, x)
		},
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetUint16(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetUint16ByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetUint16MustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetUint16ByColIndexMustGet(c, r) },
	},
	"uint32": {
		setN: func(t *g.Table, c string, r int, v interface{}) error {
			x, _ := v.(uint32)
			return t.SetUint32(c, r, x)
		},
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(uint32)
			return t.SetUint32ByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(uint32); t.SetUint32MustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) {
			x, _ := v.(uint32)
			t.SetUint32ByColIndexMustSet(c, r, x)
		},
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetUint32(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetUint32ByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetUint32MustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetUint32ByColIndexMustGet(c, r) },
	},
	"uint64": {
		setN: func(t *g.Table, c string, r int, v interface{}) error {
			x, _ := v.(uint64)
			return t.SetUint64(c, r, x)
		},
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(uint64)
			return t.SetUint64ByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(uint64); t.SetUint64MustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) {
			x, _ := v.(uint64)
			t.SetUint64ByColIndexMustSet(c, r, x)
		},
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetUint64(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetUint64ByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetUint64MustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetUint64ByColIndexMustGet(c, r) },
	},
	"uint8": {
		setN: func(t *g.Table, c string, r int, v interface{}) error { x, _ := v.(uint8); return t.SetUint8(c, r, x) },
		setI: func(t *g.Table, c int, r int, v interface{}) error {
			x, _ := v.(uint8)
			return t.SetUint8ByColIndex(c, r, x)
		},
		msetN: func(t *g.Table, c string, r int, v interface{}) { x, _ := v.(uint8); t.SetUint8MustSet(c, r, x) },
		msetI: func(t *g.Table, c int, r int, v interface{}) { x, _ := v.(uint8); t.SetUint8ByColIndexMustSet(c, r, x) },
		getN:  func(t *g.Table, c string, r int) (interface{}, error) { return t.GetUint8(c, r) },
		getI:  func(t *g.Table, c int, r int) (interface{}, error) { return t.GetUint8ByColIndex(c, r) },
		mgetN: func(t *g.Table, c string, r int) interface{} { return t.GetUint8MustGet(c, r) },
		mgetI: func(t *g.Table, c int, r int) interface{} { return t.GetUint8ByColIndexMustGet(c, r) },
	},
}

var _ time.Time
