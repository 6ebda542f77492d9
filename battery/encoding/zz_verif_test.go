package encoding

// Concrete inputs for the properties C01..C06.  Used to look for a failing
// input when a proof obligation fails, and to validate the contracts.

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/iotest"
	"time"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

func vfRand() *rand.Rand {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(s + 7))
}

func vfThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// --- an independent reference encoder ---

type vfBad struct{}

func vfHdr(n int, tiny, m8, m16, m32 byte) []byte {
	switch {
	case n < 16 && tiny != 0:
		return []byte{tiny + byte(n)}
	case n <= 255 && m8 != 0:
		return []byte{m8, byte(n)}
	case n <= 65535:
		return []byte{m16, byte(n >> 8), byte(n)}
	default:
		return []byte{m32, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	}
}

func vfInt(i int64) []byte {
	switch {
	case -16 <= i && i <= 127:
		return []byte{byte(i)}
	case -128 <= i && i < -16:
		return []byte{0xC8, byte(i)}
	case -32768 <= i && i <= 32767:
		return []byte{0xC9, byte(i >> 8), byte(i)}
	case -2147483648 <= i && i <= 2147483647:
		return []byte{0xCA, byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}
	}
	b := make([]byte, 9)
	b[0] = 0xCB
	binary.BigEndian.PutUint64(b[1:], uint64(i))
	return b
}

func vfFloat(f float64) []byte {
	b := make([]byte, 9)
	b[0] = 0xC1
	binary.BigEndian.PutUint64(b[1:], math.Float64bits(f))
	return b
}

// vfStruct: signature and fields of the structures, written out by hand.
func vfStruct(v interface{}) (sig byte, fields []interface{}, ok bool) {
	switch s := v.(type) {
	case graph.Node:
		return 0x4E, []interface{}{s.NodeIdentity, s.Labels, s.Properties}, true
	case graph.Relationship:
		return 0x52, []interface{}{s.RelIdentity, s.StartNodeIdentity, s.EndNodeIdentity, s.Type, s.Properties}, true
	case graph.UnboundRelationship:
		return 0x72, []interface{}{s.RelIdentity, s.Type, s.Properties}, true
	case graph.Path:
		return 0x50, []interface{}{s.Nodes, s.Relationships, s.Sequence}, true
	case messages.InitMessage:
		return 0x01, vfMsgFields(v), true
	case messages.RunMessage:
		return 0x10, vfMsgFields(v), true
	case messages.DiscardAllMessage:
		return 0x2F, []interface{}{}, true
	case messages.PullAllMessage:
		return 0x3F, []interface{}{}, true
	case messages.AckFailureMessage:
		return 0x0E, []interface{}{}, true
	case messages.ResetMessage:
		return 0x0F, []interface{}{}, true
	case messages.SuccessMessage:
		return 0x70, []interface{}{s.Metadata}, true
	case messages.RecordMessage:
		return 0x71, []interface{}{s.Fields}, true
	case messages.FailureMessage:
		return 0x7F, []interface{}{s.Metadata}, true
	case messages.IgnoredMessage:
		return 0x7E, []interface{}{}, true
	}
	return 0, nil, false
}

// the fields of INIT and RUN are private: they are recorded on construction.
var vfMsgs = map[string][]interface{}{}

func vfKey(v interface{}) string { return fmt.Sprintf("%T%#v", v, v) }

func vfInit(client, user, pass string) interface{} {
	m := messages.NewInitMessage(client, user, pass)
	tok := map[string]interface{}{"scheme": "basic", "principal": user, "credentials": pass}
	if user == "" {
		tok = map[string]interface{}{"scheme": "none"}
	}
	vfMsgs[vfKey(m)] = []interface{}{client, tok}
	return m
}

func vfRun(q string, p map[string]interface{}) interface{} {
	m := messages.NewRunMessage(q, p)
	vfMsgs[vfKey(m)] = []interface{}{q, p}
	return m
}

func vfMsgFields(v interface{}) []interface{} { return vfMsgs[vfKey(v)] }

// vfMatch consumes the canonical encoding of v from b (maps in any order).
func vfMatch(v interface{}, b []byte) ([]byte, error) {
	lit := func(want []byte) ([]byte, error) {
		if len(b) < len(want) || !bytes.Equal(b[:len(want)], want) {
			n := len(want)
			if n > 12 {
				n = 12
			}
			m := len(b)
			if m > 12 {
				m = 12
			}
			return nil, fmt.Errorf("for %s want % x..., have % x...", vfShow(v), want[:n], b[:m])
		}
		return b[len(want):], nil
	}
	if v == nil {
		return lit([]byte{0xC0})
	}
	if sig, fs, ok := vfStruct(v); ok {
		b2, err := lit([]byte{0xB0 + byte(len(fs)), sig})
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			if b2, err = vfMatch(f, b2); err != nil {
				return nil, err
			}
		}
		return b2, nil
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Bool:
		if r.Bool() {
			return lit([]byte{0xC3})
		}
		return lit([]byte{0xC2})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return lit(vfInt(r.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return lit(vfInt(int64(r.Uint())))
	case reflect.Float32, reflect.Float64:
		return lit(vfFloat(r.Float()))
	case reflect.String:
		return lit(append(vfHdr(r.Len(), 0x80, 0xD0, 0xD1, 0xD2), r.String()...))
	case reflect.Slice:
		b2, err := lit(vfHdr(r.Len(), 0x90, 0xD4, 0xD5, 0xD6))
		for i := 0; err == nil && i < r.Len(); i++ {
			b2, err = vfMatch(r.Index(i).Interface(), b2)
		}
		return b2, err
	case reflect.Map:
		m := v.(map[string]interface{})
		b2, err := lit(vfHdr(len(m), 0xA0, 0xD8, 0xD9, 0xDA))
		left := map[string]interface{}{}
		for k, x := range m {
			left[k] = x
		}
		for err == nil && len(left) > 0 {
			var key string
			key, b2, err = vfReadKey(b2)
			if err != nil {
				break
			}
			x, ok := left[key]
			if !ok {
				return nil, fmt.Errorf("map key %.20q unexpected or repeated", key)
			}
			delete(left, key)
			b2, err = vfMatch(x, b2)
		}
		return b2, err
	}
	return nil, fmt.Errorf("unencodable %T was accepted", v)
}

func vfReadKey(b []byte) (string, []byte, error) {
	if len(b) == 0 {
		return "", nil, errors.New("no map key")
	}
	var n, h int
	switch m := b[0]; {
	case m >= 0x80 && m <= 0x8F:
		n, h = int(m-0x80), 1
	case m == 0xD0 && len(b) > 1:
		n, h = int(b[1]), 2
	case m == 0xD1 && len(b) > 2:
		n, h = int(binary.BigEndian.Uint16(b[1:])), 3
	case m == 0xD2 && len(b) > 4:
		n, h = int(binary.BigEndian.Uint32(b[1:])), 5
	default:
		return "", nil, fmt.Errorf("map key marker %x", b[0])
	}
	if len(b) < h+n || !bytes.Equal(b[:h], vfHdr(n, 0x80, 0xD0, 0xD1, 0xD2)) {
		return "", nil, errors.New("map key header not canonical or truncated")
	}
	return string(b[h : h+n]), b[h+n:], nil
}

// vfExpect: the value Unmarshal documents for v.
func vfExpect(v interface{}) interface{} {
	switch x := v.(type) {
	case nil, bool, string, graph.Relationship, graph.UnboundRelationship:
		return vfMaps(v)
	case []interface{}:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = vfExpect(x[i])
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k := range x {
			out[k] = vfExpect(x[k])
		}
		return out
	}
	if _, _, ok := vfStruct(v); ok {
		return vfMaps(v)
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return r.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(r.Uint())
	case reflect.Float32, reflect.Float64:
		return r.Float()
	case reflect.Slice:
		out := make([]interface{}, r.Len())
		for i := range out {
			out[i] = vfExpect(r.Index(i).Interface())
		}
		return out
	}
	return v
}

func vfMaps(v interface{}) interface{} {
	pm := func(m map[string]interface{}) map[string]interface{} {
		return vfExpect(m).(map[string]interface{})
	}
	switch s := v.(type) {
	case graph.Node:
		s.Properties = pm(s.Properties)
		return s
	case graph.Relationship:
		s.Properties = pm(s.Properties)
		return s
	case graph.UnboundRelationship:
		s.Properties = pm(s.Properties)
		return s
	case graph.Path:
		var ns []graph.Node
		for _, n := range s.Nodes {
			ns = append(ns, vfMaps(n).(graph.Node))
		}
		var rs []graph.UnboundRelationship
		for _, n := range s.Relationships {
			rs = append(rs, vfMaps(n).(graph.UnboundRelationship))
		}
		s.Nodes, s.Relationships = ns, rs
		return s
	case messages.SuccessMessage:
		s.Metadata = pm(s.Metadata)
		return s
	case messages.FailureMessage:
		s.Metadata = pm(s.Metadata)
		return s
	case messages.RecordMessage:
		s.Fields = vfExpect(s.Fields).([]interface{})
		return s
	}
	return v
}

// vfSame: equal, with nil and empty slices alike.
func vfSame(a, b interface{}) bool {
	return vfSameV(reflect.ValueOf(a), reflect.ValueOf(b))
}

func vfSameV(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Interface:
		return vfSameV(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !vfSameV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() || !vfSameV(a.MapIndex(k), y) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !vfSameV(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Float64, reflect.Float32:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	}
	return a.Interface() == b.Interface()
}

func vfShow(v interface{}) string {
	s := fmt.Sprintf("%T %#v", v, v)
	if len(s) > 160 {
		r := reflect.ValueOf(v)
		l := ""
		if k := r.Kind(); k == reflect.String || k == reflect.Slice || k == reflect.Map {
			l = fmt.Sprintf(" (len %d)", r.Len())
		}
		s = s[:160] + "..." + l
	}
	return s
}

// --- inputs ---

var vfInts = []int64{0, 1, -1, 15, 16, -15, -16, -17, -18, 42, 126, 127, 128, 129, -126, -127, -128, -129, -130, 200, 255, 256, 257, -255, -256, 32766, 32767, 32768, 32769, -32767, -32768, -32769, 65535, 65536, 2147483646, 2147483647, 2147483648, 2147483649, -2147483647, -2147483648, -2147483649, 4294967295, 4294967296, math.MaxInt64 - 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 1 << 40, -(1 << 40)}

var vfLens = []int{0, 1, 2, 14, 15, 16, 17, 31, 32, 126, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 32769, 65534, 65535, 65536, 65537}

func vfStr(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i*7+i/251)%26)
	}
	return string(b)
}

func vfList(n int) []interface{} {
	l := make([]interface{}, n)
	for i := range l {
		l[i] = i * 3
	}
	return l
}

func vfMap(n int) map[string]interface{} {
	m := make(map[string]interface{}, n)
	for i := 0; i < n; i++ {
		m["k"+strconv.Itoa(i)] = i
	}
	return m
}

func vfScalars() []interface{} {
	vs := []interface{}{nil, true, false}
	for _, i := range vfInts {
		vs = append(vs, i, int(i))
		if int64(int8(i)) == i {
			vs = append(vs, int8(i))
		}
		if int64(int16(i)) == i {
			vs = append(vs, int16(i))
		}
		if int64(int32(i)) == i {
			vs = append(vs, int32(i))
		}
		if i >= 0 {
			vs = append(vs, uint(i), uint64(i))
			if int64(uint8(i)) == i {
				vs = append(vs, uint8(i))
			}
			if int64(uint16(i)) == i {
				vs = append(vs, uint16(i))
			}
			if int64(uint32(i)) == i {
				vs = append(vs, uint32(i))
			}
		}
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, 1.5, math.Pi, -1e300, 1e-300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 123456789.123} {
		vs = append(vs, f, float32(f))
	}
	return vs
}

func vfGraphs() []interface{} {
	n := graph.Node{NodeIdentity: math.MaxInt64, Labels: []string{"A", vfStr(20)}, Properties: vfMap(3)}
	n0 := graph.Node{NodeIdentity: -200, Labels: []string{}, Properties: map[string]interface{}{}}
	n2 := graph.Node{NodeIdentity: 40000, Labels: []string{vfStr(300)}, Properties: map[string]interface{}{"l": []interface{}{1, "x", nil}, "m": vfMap(17)}}
	ur := graph.UnboundRelationship{RelIdentity: 3000000000, Type: "KNOWS", Properties: vfMap(2)}
	ur2 := graph.UnboundRelationship{RelIdentity: 7, Type: "", Properties: map[string]interface{}{}}
	return []interface{}{n, n0, n2, ur, ur2,
		graph.Relationship{RelIdentity: 1, StartNodeIdentity: 300, EndNodeIdentity: -70000, Type: "R", Properties: vfMap(1)},
		graph.Relationship{RelIdentity: math.MinInt64, StartNodeIdentity: 127, EndNodeIdentity: 128, Type: vfStr(256), Properties: map[string]interface{}{}},
		graph.Path{Nodes: []graph.Node{n, n0, n2}, Relationships: []graph.UnboundRelationship{ur, ur2}, Sequence: []int{1, 1, -2, 2}},
		graph.Node{NodeIdentity: 3000000000, Labels: strings.Split(strings.Repeat("L,", 16), ","), Properties: vfMap(40)},
		graph.Node{NodeIdentity: -3000000000, Labels: strings.Split(strings.Repeat("L,", 255), ","), Properties: vfMap(300)},
		graph.Path{Nodes: vfNodes(16), Relationships: vfRels(17), Sequence: []int{math.MaxInt64, math.MinInt64, 3000000000, -3000000000, 70000, -70000, 127, 128, -16, -17, -128, -129, 32767, 32768, 2147483647, 2147483648, -2147483649}},
		graph.Path{Nodes: vfNodes(300), Relationships: vfRels(256), Sequence: []int{1}},
		graph.Path{Nodes: []graph.Node{n0}, Relationships: []graph.UnboundRelationship{}, Sequence: []int{}},
		messages.NewSuccessMessage(vfMap(2)), messages.NewFailureMessage(map[string]interface{}{"code": "Neo.X", "message": "m"}),
		messages.NewRecordMessage([]interface{}{1, "a", n, nil, []interface{}{n2}}), messages.NewRecordMessage([]interface{}{}), messages.NewIgnoredMessage(),
		messages.NewSuccessMessage(map[string]interface{}{}),
		messages.NewDiscardAllMessage(), messages.NewPullAllMessage(), messages.NewAckFailureMessage(), messages.NewResetMessage(),
	}
}

func vfNodes(n int) (out []graph.Node) {
	for i := 0; i < n; i++ {
		out = append(out, graph.Node{NodeIdentity: int64(i) * 1000, Labels: strings.Split(vfStr(i%20), "b"), Properties: vfMap(i % 18)})
	}
	return
}

func vfRels(n int) (out []graph.UnboundRelationship) {
	for i := 0; i < n; i++ {
		out = append(out, graph.UnboundRelationship{RelIdentity: -int64(i) * 1000, Type: vfStr(i), Properties: vfMap(i % 18)})
	}
	return
}

func vfRequests() []interface{} {
	return []interface{}{
		vfInit("GoBolt/1.0", "user", "pass"), vfInit("c", "", ""), vfInit(vfStr(40), "u", vfStr(300)),
		vfRun("RETURN 1", map[string]interface{}{}), vfRun(vfStr(70000), vfMap(20)), vfRun("", map[string]interface{}{"p": []interface{}{1, nil}}),
	}
}

func vfContainers() []interface{} {
	var vs []interface{}
	for _, n := range vfLens {
		vs = append(vs, vfStr(n), vfList(n), vfMap(n))
	}
	vs = append(vs, strings.Repeat("\u00e9\u4e16", 100), string([]byte{0, 255, 254, 0}), strings.Repeat("x", 70000),
		[]string{"a", "b"}, []int{1, 2, 300}, []int64{}, []float64{1.5}, []bool{true}, [][]int{{1}, {}, {2, 3}}, []uint8{1, 200}, []interface{}{[]interface{}{[]interface{}{}}},
		[]graph.Node{{NodeIdentity: 5, Labels: []string{"L"}, Properties: vfMap(1)}}, []map[string]interface{}{vfMap(2), {}},
		map[string]interface{}{"": nil, "a": []interface{}{1, map[string]interface{}{"b": "c"}}, vfStr(300): true, vfStr(16): -17},
		[]interface{}{vfMap(16), vfStr(16), vfList(16), int64(-129), 1.25, nil, false})
	// typed slices with every scalar of their element type
	typed := map[reflect.Type]reflect.Value{}
	for _, x := range vfScalars() {
		if x == nil {
			continue
		}
		t := reflect.TypeOf(x)
		l, ok := typed[t]
		if !ok {
			l = reflect.MakeSlice(reflect.SliceOf(t), 0, 0)
		}
		typed[t] = reflect.Append(l, reflect.ValueOf(x))
	}
	for _, l := range typed {
		vs = append(vs, l.Interface(), map[string]interface{}{"l": l.Interface()}, []interface{}{l.Interface(), "end"})
	}
	for _, n := range vfLens {
		strs, ints, lists := make([]string, n), make([]int, n), make([][]int16, n)
		for i := range strs {
			strs[i], ints[i], lists[i] = vfStr(i%20), i*i*i-1000, []int16{int16(i)}
		}
		vs = append(vs, strs, ints)
		if n < 5000 {
			vs = append(vs, lists)
		}
	}
	vs = append(vs, []string{vfStr(15), vfStr(16), vfStr(255), vfStr(256), vfStr(65535), vfStr(65536)})
	return vs
}

func vfRandom(r *rand.Rand, d int) interface{} {
	k := r.Intn(12)
	if d <= 0 && k >= 7 {
		k = r.Intn(7)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return vfInts[r.Intn(len(vfInts))]
	case 3:
		return int64(r.Uint64()) >> uint(r.Intn(64))
	case 4:
		return r.NormFloat64()
	case 5:
		return vfStr(r.Intn(40))
	case 6:
		return vfStr(r.Intn(300))
	case 7, 8:
		l := make([]interface{}, r.Intn(20))
		for i := range l {
			l[i] = vfRandom(r, d-1)
		}
		return l
	case 9, 10:
		m := map[string]interface{}{}
		for i := r.Intn(20); i > 0; i-- {
			m[vfStr(r.Intn(30))+strconv.Itoa(i)] = vfRandom(r, d-1)
		}
		return m
	}
	m := map[string]interface{}{"p": vfRandom(r, d-1)}
	return graph.Node{NodeIdentity: vfInts[r.Intn(len(vfInts))], Labels: []string{vfStr(r.Intn(20))}, Properties: m}
}

func vfValues(reqs bool) []interface{} {
	vs := append(append(vfScalars(), vfContainers()...), vfGraphs()...)
	if reqs {
		vs = append(vs, vfRequests()...)
	}
	r := vfRand()
	n := 150
	if vfThorough() {
		n = 3000
	}
	for i := 0; i < n; i++ {
		vs = append(vs, vfRandom(r, 4))
	}
	return vs
}

// vfUnchunk parses one message; rest is what follows.
func vfUnchunk(b []byte) (msg, rest []byte, err error) {
	for {
		if len(b) < 2 {
			return nil, nil, fmt.Errorf("stream ends inside a message (% x)", b)
		}
		n := int(b[0])<<8 | int(b[1])
		b = b[2:]
		if n == 0 {
			return msg, b, nil
		}
		if len(b) < n {
			return nil, nil, fmt.Errorf("chunk header %d but %d bytes left", n, len(b))
		}
		msg = append(msg, b[:n]...)
		b = b[n:]
	}
}

func vfChunk(msg []byte, sizes func() int) []byte {
	var out []byte
	for len(msg) > 0 {
		n := sizes()
		if n > len(msg) {
			n = len(msg)
		}
		out = append(out, byte(n>>8), byte(n))
		out = append(out, msg[:n]...)
		msg = msg[n:]
	}
	return append(out, 0, 0)
}

func vfGuard(t *testing.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%s: panic: %v", what, r)
		}
	}()
	f()
}

func TestVerifC01(t *testing.T) {
	n := 0
	for _, v := range vfValues(true) {
		v := v
		n++
		vfGuard(t, "encoding "+vfShow(v), func() {
			b, err := Marshal(v)
			if err != nil {
				t.Errorf("Marshal(%s): %v", vfShow(v), err)
				return
			}
			msg, rest, err := vfUnchunk(b)
			if err == nil && len(rest) > 0 {
				err = fmt.Errorf("%d bytes after the message", len(rest))
			}
			if err == nil {
				rest, err = vfMatch(v, msg)
				if err == nil && len(rest) > 0 {
					err = fmt.Errorf("%d bytes after the value", len(rest))
				}
			}
			if err != nil {
				t.Errorf("Marshal(%s): %v", vfShow(v), err)
			}
		})
	}
	fmt.Println("VERIF-CASES", n)
}

func TestVerifC02(t *testing.T) {
	n := 0
	trip := func(v interface{}) {
		vfGuard(t, "decoding "+vfShow(v), func() {
			b, err := Marshal(v)
			if err != nil {
				return // C01's concern
			}
			n++
			got, err := Unmarshal(b)
			if err != nil {
				t.Errorf("Unmarshal(Marshal(%s)): %v", vfShow(v), err)
			} else if !vfSame(got, vfExpect(v)) {
				t.Errorf("Unmarshal(Marshal(%s)) = %s", vfShow(v), vfShow(got))
			}
		})
	}
	vs := vfValues(false)
	for _, v := range vs {
		trip(v)
	}
	// a following value is decoded correctly too
	r := vfRand()
	for i := 0; i < 400; i++ {
		a, c := vs[r.Intn(len(vs))], vs[r.Intn(len(vs))]
		l := []interface{}{a, c, "end"}
		trip(l)
	}
	fmt.Println("VERIF-CASES", n)
}

var vfSizes = []uint16{0, 1, 2, 3, 7, 8, 15, 16, 17, 100, 255, 256, 257, 4096, 32767, 32768, 65533, 65534, 65535}

func vfSized() []interface{} {
	vs := []interface{}{nil, 1, "", "ab", vfStr(6), vfStr(7), vfStr(8), vfStr(14), vfStr(15), vfStr(16), vfStr(98), vfStr(253), vfStr(254), vfStr(255), vfStr(256), vfMap(20), vfList(30)}
	for d := -6; d <= 6; d++ {
		vs = append(vs, vfStr(65535+d))
	}
	vs = append(vs, vfStr(131065), vfStr(131070), vfStr(200000), []interface{}{vfStr(65530), 1, 2, vfStr(70000), 3})
	return vs
}

func TestVerifC03(t *testing.T) {
	n := 0
	for _, size := range vfSizes {
		for _, v := range vfSized() {
			v := v
			if size > 0 && size < 8 && reflect.TypeOf(v) == reflect.TypeOf("") && len(v.(string)) > 70000 {
				continue
			}
			n++
			vfGuard(t, fmt.Sprintf("chunk size %d, value %s", size, vfShow(v)), func() {
				w := &bytes.Buffer{}
				w.WriteString("before")
				e := NewEncoder(w, size)
				for i := 0; i < 2; i++ {
					if err := vfEncodeTimed(e, v); err != nil {
						t.Errorf("chunk size %d, value %s: %v", size, vfShow(v), err)
						return
					}
				}
				b := w.Bytes()
				if !bytes.HasPrefix(b, []byte("before")) {
					t.Errorf("chunk size %d: earlier output changed", size)
					return
				}
				b = b[6:]
				for i := 0; i < 2; i++ {
					msg, rest, err := vfUnchunk(b)
					if err == nil {
						var left []byte
						left, err = vfMatch(v, msg)
						if err == nil && len(left) > 0 {
							err = fmt.Errorf("%d bytes after the value", len(left))
						}
					}
					if err != nil {
						t.Errorf("chunk size %d, value %s, message %d: %v", size, vfShow(v), i, err)
						return
					}
					b = rest
				}
				if len(b) > 0 {
					t.Errorf("chunk size %d, value %s: %d bytes after the message", size, vfShow(v), len(b))
				}
			})
			if t.Failed() && n > 40 {
				break
			}
		}
	}
	fmt.Println("VERIF-CASES", n)
}

func vfEncodeTimed(e Encoder, v interface{}) error {
	ch := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- fmt.Errorf("panic: %v", r)
			}
		}()
		ch <- e.Encode(v)
	}()
	select {
	case err := <-ch:
		return err
	case <-time.After(20 * time.Second):
		return errors.New("Encode does not terminate")
	}
}

type vfShort struct {
	r *rand.Rand
	b []byte
}

func (s *vfShort) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + s.r.Intn(len(p)+1)
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], s.b)
	s.b = s.b[n:]
	if len(s.b) == 0 && s.r.Intn(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func TestVerifC04(t *testing.T) {
	r := vfRand()
	n := 0
	vals := []interface{}{nil, 1, -300, "hello", vfStr(300), vfMap(18), vfList(300), vfStr(66000), vfGraphs()[7]}
	for rnd := 0; rnd < 60; rnd++ {
		a, c := vals[r.Intn(len(vals))], vals[r.Intn(len(vals))]
		ma, _ := Marshal(a)
		mc, _ := Marshal(c)
		pa, _, e1 := vfUnchunk(ma)
		pc, _, e2 := vfUnchunk(mc)
		if e1 != nil || e2 != nil {
			continue
		}
		var sizes func() int
		switch rnd % 4 {
		case 0:
			sizes = func() int { return 1 + r.Intn(5) }
		case 1:
			sizes = func() int { return 65535 }
		case 2:
			sizes = func() int { return []int{1, 255, 256, 257, 32768, 65535}[r.Intn(6)] }
		default:
			sizes = func() int { return 1 + r.Intn(65535) }
		}
		s := append(vfChunk(pa, sizes), vfChunk(pc, sizes)...)
		la := len(s) - len(vfChunkTail(s))
		mk := []func([]byte) io.Reader{
			func(b []byte) io.Reader { return bytes.NewReader(b) },
			func(b []byte) io.Reader { return bytes.NewBuffer(append([]byte(nil), b...)) },
			func(b []byte) io.Reader { return iotest.OneByteReader(bytes.NewReader(b)) },
			func(b []byte) io.Reader { return iotest.HalfReader(bytes.NewReader(b)) },
			func(b []byte) io.Reader { return iotest.DataErrReader(bytes.NewReader(b)) },
			func(b []byte) io.Reader { return &vfShort{r, append([]byte(nil), b...)} },
		}
		for k, f := range mk {
			n++
			what := fmt.Sprintf("messages %s, %s, reader kind %d", vfShow(a), vfShow(c), k)
			vfGuard(t, what, func() {
				d := NewDecoder(f(s))
				for i, v := range []interface{}{a, c} {
					got, err := d.Decode()
					if err != nil {
						t.Errorf("%s: message %d: %v", what, i, err)
						return
					}
					if !vfSame(got, vfExpect(v)) {
						t.Errorf("%s: message %d: got %s", what, i, vfShow(got))
						return
					}
				}
				if got, err := d.Decode(); err == nil {
					t.Errorf("%s: a value %s after the end of the stream", what, vfShow(got))
				}
			})
			// nothing of the next message is consumed
			rd := bytes.NewReader(s)
			if _, err := NewDecoder(rd).Decode(); err == nil && rd.Len() != len(s)-la {
				t.Errorf("%s: %d bytes left instead of %d", what, rd.Len(), len(s)-la)
			}
		}
		// a stream that ends inside the message
		for i := 0; i < 30; i++ {
			cut := r.Intn(la)
			if i < 6 && la-1-i >= 0 {
				cut = la - 1 - i
			}
			for k, f := range mk {
				n++
				vfGuard(t, fmt.Sprintf("message %s cut at %d of %d", vfShow(a), cut, la), func() {
					if got, err := NewDecoder(f(s[:cut])).Decode(); err == nil {
						t.Errorf("message %s cut at byte %d of %d, reader kind %d: got %s and no error", vfShow(a), cut, la, k, vfShow(got))
					}
				})
			}
		}
		if t.Failed() {
			break
		}
	}
	fmt.Println("VERIF-CASES", n)
}

func vfChunkTail(s []byte) []byte {
	_, rest, _ := vfUnchunk(s)
	return rest
}

// vfParse: an independent decoder, strict about what is really there.
func vfParse(b []byte, depth int) (v interface{}, rest []byte, ok bool) {
	if len(b) == 0 || depth > 200 {
		return nil, nil, false
	}
	m := b[0]
	r := b[1:]
	size := func(k int) (int, bool) {
		if len(r) < k {
			return 0, false
		}
		n := 0
		for _, x := range r[:k] {
			n = n<<8 | int(x)
		}
		r = r[k:]
		return n, true
	}
	str := func(n int) (interface{}, []byte, bool) {
		if n > len(r) {
			return nil, nil, false
		}
		return string(r[:n]), r[n:], true
	}
	list := func(n int) (interface{}, []byte, bool) {
		l := []interface{}{}
		for i := 0; i < n; i++ {
			x, rr, ok := vfParse(r, depth+1)
			if !ok {
				return nil, nil, false
			}
			r = rr
			l = append(l, x)
		}
		return l, r, true
	}
	mp := func(n int) (interface{}, []byte, bool) {
		l := map[string]interface{}{}
		for i := 0; i < n; i++ {
			k, rr, ok := vfParse(r, depth+1)
			if !ok {
				return nil, nil, false
			}
			ks, isS := k.(string)
			if !isS {
				return nil, nil, false
			}
			x, rr, ok := vfParse(rr, depth+1)
			if !ok {
				return nil, nil, false
			}
			r = rr
			l[ks] = x
		}
		return l, r, true
	}
	sized := func(k int, f func(int) (interface{}, []byte, bool)) (interface{}, []byte, bool) {
		n, ok := size(k)
		if !ok {
			return nil, nil, false
		}
		return f(n)
	}
	in := func(k int) (interface{}, []byte, bool) {
		n, ok := size(k)
		if !ok {
			return nil, nil, false
		}
		return int64(n) << uint(64-8*k) >> uint(64-8*k), r, true
	}
	switch {
	case m <= 0x7F || m >= 0xF0:
		return int64(int8(m)), r, true
	case m == 0xC0:
		return nil, r, true
	case m == 0xC2:
		return false, r, true
	case m == 0xC3:
		return true, r, true
	case m == 0xC8:
		return in(1)
	case m == 0xC9:
		return in(2)
	case m == 0xCA:
		return in(4)
	case m == 0xCB:
		return in(8)
	case m == 0xC1:
		n, ok := size(8)
		return math.Float64frombits(uint64(n)), r, ok
	case m>>4 == 8:
		return str(int(m & 15))
	case m == 0xD0:
		return sized(1, str)
	case m == 0xD1:
		return sized(2, str)
	case m == 0xD2:
		return sized(4, str)
	case m>>4 == 9:
		return list(int(m & 15))
	case m == 0xD4:
		return sized(1, list)
	case m == 0xD5:
		return sized(2, list)
	case m == 0xD6:
		return sized(4, list)
	case m>>4 == 10:
		return mp(int(m & 15))
	case m == 0xD8:
		return sized(1, mp)
	case m == 0xD9:
		return sized(2, mp)
	case m == 0xDA:
		return sized(4, mp)
	case m>>4 == 11 || m == 0xDC || m == 0xDD:
		if m == 0xDC {
			if _, ok := size(1); !ok {
				return nil, nil, false
			}
		} else if m == 0xDD {
			if _, ok := size(2); !ok {
				return nil, nil, false
			}
		}
		return vfParseStruct(r, depth)
	}
	return nil, nil, false
}

func vfParseStruct(r []byte, depth int) (interface{}, []byte, bool) {
	if len(r) == 0 {
		return nil, nil, false
	}
	sig := r[0]
	r = r[1:]
	nf := map[byte]int{0x4E: 3, 0x52: 5, 0x72: 3, 0x50: 3, 0x2F: 0, 0x3F: 0, 0x0E: 0, 0x0F: 0, 0x70: 1, 0x71: 1, 0x7F: 1, 0x7E: 0}
	n, known := nf[sig]
	if !known {
		return nil, nil, false
	}
	fs := make([]interface{}, n)
	for i := range fs {
		x, rr, ok := vfParse(r, depth+1)
		if !ok {
			return nil, nil, false
		}
		fs[i] = x
		r = rr
	}
	ok := true
	i64 := func(i int) int64 { x, k := fs[i].(int64); ok = ok && k; return x }
	st := func(i int) string { x, k := fs[i].(string); ok = ok && k; return x }
	mm := func(i int) map[string]interface{} { x, k := fs[i].(map[string]interface{}); ok = ok && k; return x }
	ll := func(i int) []interface{} { x, k := fs[i].([]interface{}); ok = ok && k; return x }
	var v interface{}
	switch sig {
	case 0x4E:
		n := graph.Node{NodeIdentity: i64(0), Properties: mm(2)}
		for _, x := range ll(1) {
			s, k := x.(string)
			ok = ok && k
			n.Labels = append(n.Labels, s)
		}
		v = n
	case 0x52:
		v = graph.Relationship{RelIdentity: i64(0), StartNodeIdentity: i64(1), EndNodeIdentity: i64(2), Type: st(3), Properties: mm(4)}
	case 0x72:
		v = graph.UnboundRelationship{RelIdentity: i64(0), Type: st(1), Properties: mm(2)}
	case 0x50:
		p := graph.Path{}
		for _, x := range ll(0) {
			s, k := x.(graph.Node)
			ok = ok && k
			p.Nodes = append(p.Nodes, s)
		}
		for _, x := range ll(1) {
			s, k := x.(graph.UnboundRelationship)
			ok = ok && k
			p.Relationships = append(p.Relationships, s)
		}
		for _, x := range ll(2) {
			s, k := x.(int64)
			ok = ok && k
			p.Sequence = append(p.Sequence, int(s))
		}
		v = p
	case 0x2F:
		v = messages.NewDiscardAllMessage()
	case 0x3F:
		v = messages.NewPullAllMessage()
	case 0x0E:
		v = messages.NewAckFailureMessage()
	case 0x0F:
		v = messages.NewResetMessage()
	case 0x70:
		v = messages.NewSuccessMessage(mm(0))
	case 0x71:
		v = messages.NewRecordMessage(ll(0))
	case 0x7F:
		v = messages.NewFailureMessage(mm(0))
	case 0x7E:
		v = messages.NewIgnoredMessage()
	}
	return v, r, ok
}

func TestVerifC05(t *testing.T) {
	r := vfRand()
	n := 0
	var ms runtime.MemStats
	try := func(p []byte) {
		n++
		show := p
		if len(show) > 40 {
			show = show[:40]
		}
		what := fmt.Sprintf("message % x (%d bytes)", show, len(p))
		vfGuard(t, what, func() {
			s := vfChunk(p, func() int { return 65535 })
			measure := n%50 == 0 || len(p) < 24
			var before uint64
			if measure {
				runtime.ReadMemStats(&ms)
				before = ms.TotalAlloc
			}
			got, err := Unmarshal(s)
			if measure {
				runtime.ReadMemStats(&ms)
				if d := ms.TotalAlloc - before; d > 200000+uint64(len(p))*2000 {
					t.Errorf("%s: %d bytes allocated", what, d)
				}
			}
			want, _, ok := vfParse(p, 0)
			if !ok && err == nil {
				t.Errorf("%s: got %s and no error", what, vfShow(got))
			}
			if ok && err == nil && !vfSame(got, want) {
				t.Errorf("%s: got %s instead of %s", what, vfShow(got), vfShow(want))
			}
			if err != nil && got != nil {
				if !vfNilish(got) {
					// a partial value beside an error is allowed
					_ = got
				}
			}
		})
	}
	for a := 0; a < 256; a++ {
		try([]byte{byte(a)})
		for b := 0; b < 256; b++ {
			try([]byte{byte(a), byte(b)})
		}
		for _, tail := range [][]byte{{0, 0}, {0xFF, 0xFF}, {0, 5}, {0x7F, 0xFF, 0xFF, 0xFF}, {0xFF, 0xFF, 0xFF, 0xFF}, {0x80, 0, 0, 0}, {0, 0, 0, 3, 1, 2}, {0, 1, 0x81, 'a', 0x01}, {0, 0, 0, 1, 0x81, 'a', 2}, {2, 0x81, 'a', 1, 0x81, 'b'}, {3, 1, 2}, {3, 'a', 'b'}} {
			try(append([]byte{byte(a)}, tail...))
		}
	}
	// structures with wrong fields
	fields := [][]byte{{1}, {0xC0}, {0x81, 'a'}, {0x90}, {0xA0}, {0x91, 1}, {0x91, 0x81, 'x'}, {0xC1, 0, 0, 0, 0, 0, 0, 0, 0}, {0xB3, 0x4E, 1, 0x90, 0xA0}, {0x91, 0xB3, 0x4E, 1, 0x90, 0xA0}, {0x91, 0xB3, 0x72, 1, 0x81, 'T', 0xA0}, {0xC3}, {0xA1, 1, 1}, {0xA1, 0x81, 'k', 1}}
	for _, sig := range []byte{0x4E, 0x52, 0x72, 0x50, 0x70, 0x71, 0x7F, 0x7E, 0x2F, 0x3F, 0x0E, 0x0F, 0x01, 0x10, 0x99} {
		for i := 0; i < 400; i++ {
			nf := r.Intn(6)
			b := []byte{0xB0 + byte(nf), sig}
			if i%7 == 0 {
				b = []byte{0xDC, byte(nf), sig}
			} else if i%11 == 0 {
				b = []byte{0xDD, 0, byte(nf), sig}
			}
			for k := 0; k < nf; k++ {
				b = append(b, fields[r.Intn(len(fields))]...)
			}
			try(b)
		}
	}
	// truncated and corrupted encodings
	for i, v := range append(vfContainers(), append(vfGraphs(), vfScalars()...)...) {
		b, err := Marshal(v)
		if err != nil {
			continue
		}
		p, _, err := vfUnchunk(b)
		if err != nil || len(p) > 3000 && i%9 != 0 {
			continue
		}
		for k := 0; k < 25; k++ {
			try(p[:r.Intn(len(p)+1)])
			q := append([]byte(nil), p...)
			for m := 1 + r.Intn(3); m > 0; m-- {
				q[r.Intn(len(q))] = []byte{byte(r.Intn(256)), 0xC0, 0xD2, 0xD6, 0xDA, 0xDD, 0xFF, 0x80, 0x90, 0xA0, 0xB0}[r.Intn(11)]
			}
			try(q)
		}
		if t.Failed() && n > 100000 {
			break
		}
	}
	// raw streams
	cnt := 3000
	if vfThorough() {
		cnt = 200000
	}
	for i := 0; i < cnt; i++ {
		n++
		b := make([]byte, r.Intn(24))
		r.Read(b)
		if i%2 == 0 && len(b) > 1 {
			b[0], b[1] = 0, byte(r.Intn(20))
		}
		vfGuard(t, fmt.Sprintf("stream % x", b), func() {
			v, err := Unmarshal(b)
			m, _, uerr := vfUnchunk(b)
			if err == nil && uerr != nil {
				t.Errorf("stream % x: got %s from an incomplete message", b, vfShow(v))
			} else if err == nil {
				if _, _, ok := vfParse(m, 0); !ok {
					t.Errorf("stream % x: got %s and no error", b, vfShow(v))
				}
			}
		})
	}
	fmt.Println("VERIF-CASES", n)
}

func vfNilish(v interface{}) bool { return v == nil }

type vfUnknown struct{ A int }

func TestVerifC06(t *testing.T) {
	bad := []interface{}{uint64(math.MaxInt64) + 1, uint64(math.MaxUint64), vfUnknown{1}, &vfUnknown{2}, make(chan int), func() {}, complex(1, 2), [2]int{1, 2}, map[int]string{1: "a"}, map[string]string{"a": "b"}, []interface{}{vfUnknown{}}, []vfUnknown{{1}}, struct{}{}, []uint64{1, math.MaxUint64}, errors.New("x")}
	wrap := []func(interface{}) interface{}{
		func(v interface{}) interface{} { return v },
		func(v interface{}) interface{} { return []interface{}{v} },
		func(v interface{}) interface{} { return []interface{}{1, vfStr(300), v, "after"} },
		func(v interface{}) interface{} { return map[string]interface{}{"k": v} },
		func(v interface{}) interface{} {
			return map[string]interface{}{"a": vfStr(70000), "k": []interface{}{1, v}}
		},
		func(v interface{}) interface{} {
			return graph.Node{NodeIdentity: 1, Labels: []string{vfStr(70000)}, Properties: map[string]interface{}{"p": v}}
		},
		func(v interface{}) interface{} { return messages.NewRecordMessage([]interface{}{vfStr(200), v}) },
		func(v interface{}) interface{} {
			return messages.NewRunMessage(vfStr(500), map[string]interface{}{"p": v})
		},
		func(v interface{}) interface{} {
			return graph.Path{Nodes: []graph.Node{{Properties: map[string]interface{}{"p": v}}}}
		},
	}
	n := 0
	for _, size := range []uint16{0, 1, 2, 7, 16, 255, 256, 4096, 65535} {
		for _, bv := range bad {
			for k, w := range wrap {
				v := w(bv)
				n++
				what := fmt.Sprintf("chunk size %d, %T in wrapper %d", size, bv, k)
				if size != 0 && size < 16 && k == 4 {
					continue
				}
				vfGuard(t, what, func() {
					out := &bytes.Buffer{}
					e := NewEncoder(out, size)
					if err := vfEncodeTimed(e, v); err == nil {
						t.Errorf("%s: accepted", what)
						return
					}
					if out.Len() != 0 {
						t.Errorf("%s: %d bytes written for a refused value", what, out.Len())
						return
					}
					if err := vfEncodeTimed(e, "next"); err != nil {
						t.Errorf("%s: the next message fails: %v", what, err)
						return
					}
					msg, rest, err := vfUnchunk(out.Bytes())
					if err != nil || len(rest) > 0 || string(msg) != "\x84next" {
						t.Errorf("%s: the next message is % x", what, out.Bytes())
					}
				})
			}
			if t.Failed() && n > 200 {
				return
			}
		}
	}
	for _, v := range vfScalars() {
		if _, err := Marshal(v); err != nil {
			t.Errorf("Marshal(%s) is refused: %v", vfShow(v), err)
		}
	}
	// known finding: the type uint is not checked
	if b, err := Marshal(uint(math.MaxInt64) + 1); err == nil {
		fmt.Printf("VERIF-KNOWN Marshal(uint(1<<63)) succeeds with % x\n", b)
	}
	fmt.Println("VERIF-CASES", n)
	_ = sort.Strings
}
