package msgpack

import (
	"errors"
	"io"
	"reflect"

	"github.com/vmihailenco/msgpack/v4/codes"
)

var errNo = errors.New("msgpack is not available")

type Encoder struct{}
type Decoder struct{}

func NewEncoder(io.Writer) *Encoder { return &Encoder{} }
func NewDecoder(io.Reader) *Decoder { return &Decoder{} }
func (*Encoder) UseCompactEncoding(bool) *Encoder { return nil }
func (*Encoder) EncodeBytes([]byte) error           { return errNo }
func (*Encoder) EncodeValue(v reflect.Value) error  { return errNo }
func (*Encoder) EncodeNil() error                   { return errNo }
func (*Encoder) EncodeMapLen(int) error             { return errNo }
func (*Encoder) EncodeArrayLen(int) error           { return errNo }
func (*Encoder) Encode(...interface{}) error        { return errNo }
func (*Decoder) Skip() error                        { return errNo }
func (*Decoder) PeekCode() (codes.Code, error)      { return 0, errNo }
func (*Decoder) DecodeNil() error                   { return errNo }
func (*Decoder) DecodeArrayLen() (int, error)       { return 0, errNo }
func (*Decoder) DecodeMapLen() (int, error)         { return 0, errNo }
func (*Decoder) DecodeValue(v reflect.Value) error  { return errNo }
func (*Decoder) DecodeBytes() ([]byte, error)       { return nil, errNo }
func (*Decoder) Decode(...interface{}) error        { return errNo }
func (*Encoder) SortMapKeys(bool) *Encoder   { return nil }
func (*Encoder) StructAsArray(bool) *Encoder { return nil }
