package zzverifspec

import (
	"bufio"
	"bytes"
	"encoding/json"
	"io"
	"math"
	"net/url"
)

// Stand-ins for what writes text: every call that hands text to a writer is a
// Write of the composed text.

func isInf(f float64, sign int) bool {
	return sign >= 0 && f > math.MaxFloat64 || sign <= 0 && f < -math.MaxFloat64
}

func writeText(w io.Writer, text string) (int, error) { return w.Write([]byte(text)) }

func writeTextErr(w io.Writer, text string) error {
	_, err := w.Write([]byte(text))
	return err
}

func bufferWriteTo(b *bytes.Buffer, w io.Writer) (int64, error) {
	text := b.String()
	if text == "" {
		return 0, nil
	}
	b.Reset()
	n, err := w.Write([]byte(text))
	return int64(n), err
}

// jsonLen and jsonAt are the number of elements of an encoded list or map, and
// an element.
func jsonLen(x interface{}) int               { return 0 }
func jsonAt(x interface{}, i int) interface{} { return nil }

// encodable reports whether encoding/json surely accepts x, jsonText is its
// encoding, jsonField what is encoded under a key, and jsonList reports whether
// a text is a list of encoded elements.
func encodable(x interface{}) bool                    { return false }
func jsonText(x interface{}) string                   { return "" }
func jsonField(x interface{}, key string) interface{} { return nil }
func jsonList(text string, elems []string) bool       { return false }

type encodeErr struct{ v int }

func (e *encodeErr) Error() string { return "cannot encode" }

var errEncode error = &encodeErr{1}

// encoded is what has been encoded.
var encoded []interface{}
var encodedText []string

func jsonMarshal(x interface{}) ([]byte, error) {
	if !encodable(x) {
		return nil, errEncode
	}
	encoded = append(encoded, x)
	text := jsonText(x)
	encodedText = append(encodedText, text)
	return []byte(text), nil
}

type encoderOf struct {
	e *json.Encoder
	w io.Writer
}

var encoders []encoderOf

func jsonNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	encoders = append(encoders, encoderOf{e, w})
	return e
}

func jsonEncode(e *json.Encoder, x interface{}) error {
	b, err := jsonMarshal(x)
	if err != nil {
		return err
	}
	for _, o := range encoders {
		if o.e == e {
			_, err = o.w.Write([]byte(string(b) + "\n"))
			return err
		}
	}
	unreachable()
	return nil
}

// buffered is a bufio.Writer: it keeps what is written until it is flushed, or
// hands it on as soon as it may.
type buffered struct {
	b    *bufio.Writer
	w    io.Writer
	text string
	err  error
}

var buffers []*buffered

// full says that buffers hand on everything at once.
var full bool

func bufioNew(w io.Writer) *bufio.Writer {
	b := new(bufio.Writer)
	buffers = append(buffers, &buffered{b: b, w: w})
	return b
}

func bufferOf(b *bufio.Writer) *buffered {
	for _, x := range buffers {
		if x.b == b {
			return x
		}
	}
	unreachable()
	return nil
}

func bufioWrite(b *bufio.Writer, text string) (int, error) {
	x := bufferOf(b)
	if x.err != nil {
		return 0, x.err
	}
	if full {
		_, x.err = x.w.Write([]byte(text))
		return len(text), x.err
	}
	x.text += text
	return len(text), nil
}

func bufioFlush(b *bufio.Writer) error {
	x := bufferOf(b)
	if x.err == nil && x.text != "" {
		_, x.err = x.w.Write([]byte(x.text))
		x.text = ""
	}
	return x.err
}

// outputs forgets what was written and encoded.
func outputs() {
	encoded, encodedText, encoders, buffers = nil, nil, nil, nil
	full = false
}

// what the methods of url.Values do
func queryGet(q url.Values, name string) string {
	v := q[name]
	if len(v) == 0 {
		return ""
	}
	return v[0]
}

func querySet(q url.Values, name, val string) { q[name] = []string{val} }

func queryAdd(q url.Values, name, val string) { q[name] = append(q[name], val) }

func queryDel(q url.Values, name string) { delete(q, name) }

func queryHas(q url.Values, name string) bool {
	_, ok := q[name]
	return ok
}
