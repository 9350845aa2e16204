#!/usr/bin/env python3
"""The planted bugs. usage: mkseeds.py [id...]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import make
def T(body, imports=()):
    im = "".join(f'\t"{i}"\n' for i in ("testing",) + tuple(imports))
    return f"package jettison\n\nimport (\n{im})\n\n{body}\n"
S = []
def seed(*a, **k): S.append((a, k))

seed("c05-base64-grow", "C05", [("encode.go", "new := make([]byte, cap(dst)+(n-a))\n\t\t\tcopy(new, dst)", "new := make([]byte, cap(dst)+(n-a))\n\t\t\tcopy(new[:n], dst)")],
T('''func TestZZDemo(t *testing.T) {
	dst := []byte("a prefix that is longer than the text")
	b, err := Append(dst[:len(dst):len(dst)], []byte{1})
	if err != nil || string(b) != "a prefix that is longer than the text\\"AQ==\\"" {
		t.Fatalf("%q %v", b, err)
	}
}'''), "a []byte appended to a full destination that is longer than the base64 text", "only the first bytes of the caller's destination are kept when it is grown")

seed("c02-replacement-char", "C02", [("encode.go", "if r == utf8.RuneError && size == 1 {", "if r == utf8.RuneError {")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal("a\\uFFFDb")
	if err != nil || string(b) != "\\"a\\uFFFDb\\"" {
		t.Fatalf("%q %v", b, err)
	}
}'''), "a string that contains a properly encoded U+FFFD", "a valid character is treated as an invalid byte and written escaped")

seed("c02-invalid-byte-skip", "C02", [("encode.go", "dst = append(dst, `\\ufffd`...)\n\t\t\t\ti += size", "dst = append(dst, `\\ufffd`...)\n\t\t\t\ti += size\n\t\t\t\tfor i < len(b) && !utf8.RuneStart(b[i]) {\n\t\t\t\t\ti++\n\t\t\t\t}")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal("a\\xff\\x80\\x80b")
	if err != nil || string(b) != `"a\\ufffd\\ufffd\\ufffdb"` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "an invalid lead byte followed by stray continuation bytes", "several invalid bytes are replaced by a single U+FFFD")

seed("c03-exponent-sign", "C03", [("number.go", "if s[0] == '+' || s[0] == '-' {\n\t\t\ts = s[1:]\n\t\t\tif s == \"\" {\n\t\t\t\treturn false\n\t\t\t}\n\t\t}", "if s[0] == '+' || s[0] == '-' {\n\t\t\ts = s[1:]\n\t\t}")],
T('''func TestZZDemo(t *testing.T) {
	for _, s := range []string{"1e+", "1E-", "-0.5e+"} {
		if b, err := Marshal(json.Number(s)); err == nil {
			t.Fatalf("%q", b)
		}
	}
}''', ("encoding/json",)), "a json.Number that ends after the sign of its exponent", "an incomplete exponent is accepted and copied")

seed("c03-fraction", "C03", [("number.go", "if len(s) >= 2 && s[0] == '.' && '0' <= s[1] && s[1] <= '9' {\n\t\ts = s[2:]", "if len(s) >= 2 && s[0] == '.' {\n\t\ts = s[1:]")],
T('''func TestZZDemo(t *testing.T) {
	for _, s := range []string{"1.e5", "0.E1"} {
		if b, err := Marshal(json.Number(s)); err == nil {
			t.Fatalf("%q", b)
		}
	}
}''', ("encoding/json",)), "a json.Number with a dot directly followed by an exponent", "a number without digits after the dot is accepted")

seed("c04-double-backslash", "C04", [("encode.go", "if skipNext {\n\t\t\tskipNext = false\n\t\t\tcontinue\n\t\t}\n\t\t// Next character must be skipped.\n\t\tif c == '\\\\' {\n\t\t\tskipNext = true\n\t\t\tcontinue\n\t\t}", "if c == '\\\\' {\n\t\t\tskipNext = true\n\t\t\tcontinue\n\t\t}\n\t\tif skipNext {\n\t\t\tskipNext = false\n\t\t\tcontinue\n\t\t}")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal(json.RawMessage(`[ "a\\\\" , "x y" ]`))
	if err != nil || string(b) != `["a\\\\","x y"]` {
		t.Fatalf("%q %v", b, err)
	}
}''', ("encoding/json",)), "a string that ends with an escaped backslash, followed by white space", "the closing quote is taken for an escaped one, so white space outside of strings is kept and white space inside is dropped")

seed("c04-carriage-return", "C04", [("encode.go", "case ' ', '\\n', '\\r', '\\t':", "case ' ', '\\n', '\\t':")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal(json.RawMessage("[1,\\r\\n2]"))
	if err != nil || string(b) != `[1,2]` {
		t.Fatalf("%q %v", b, err)
	}
}''', ("encoding/json",)), "JSON with carriage returns", "carriage returns outside of strings are kept")

seed("c06-early-put", "C06", [("encode.go", "if err == nil {\n\t\t// Sort map entries by key in\n\t\t// lexicographical order.\n\t\tsort.Sort(mel)\n\n\t\t// Append sorted comma-delimited k/v\n\t\t// pairs to the given buffer.\n\t\tfor i, kv := range mel.s {\n\t\t\tif i != 0 {\n\t\t\t\tdst = append(dst, ',')\n\t\t\t}\n\t\t\tdst = append(dst, kv.keyval...)\n\t\t}\n\t}\n\t// The map elements must be released before\n\t// the buffer, because each k/v pair holds\n\t// two sublices that points to the buffer's\n\t// backing array.\n\treleaseMapElems(mel)\n\tbufferPool.Put(buf)\n\n\treturn dst, err\n}\n\n// encodeSyncMap", "bufferPool.Put(buf)\n\tif err == nil {\n\t\t// Sort map entries by key in\n\t\t// lexicographical order.\n\t\tsort.Sort(mel)\n\n\t\t// Append sorted comma-delimited k/v\n\t\t// pairs to the given buffer.\n\t\tfor i, kv := range mel.s {\n\t\t\tif i != 0 {\n\t\t\t\tdst = append(dst, ',')\n\t\t\t}\n\t\t\tdst = append(dst, kv.keyval...)\n\t\t}\n\t}\n\treleaseMapElems(mel)\n\n\treturn dst, err\n}\n\n// encodeSyncMap")],
T('''func TestZZDemo(t *testing.T) {
	m := map[string]int{}
	for i := 0; i < 300; i++ {
		m[fmt.Sprint("key", i)] = i
	}
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				if _, err := Marshal(m); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
}''', ("fmt", "sync")), "several goroutines that encode maps at the same time, one of which gets the buffer another one still reads", "the buffer that holds the encoded entries is given back to its pool before they are copied", race=True)

seed("c06-shared-result", "C06", [("json.go", "b = make([]byte, len(buf.B))\n\t\tcopy(b, buf.B)", "if len(buf.B) <= defaultBufCap/2 {\n\t\t\tb = make([]byte, len(buf.B))\n\t\t\tcopy(b, buf.B)\n\t\t} else {\n\t\t\tb = buf.B[:len(buf.B):len(buf.B)]\n\t\t}")],
T('''func TestZZDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		a, _ := Marshal(strings.Repeat("a", 3000))
		s := string(a)
		for j := 0; j < 10; j++ {
			Marshal(strings.Repeat("b", 3000))
		}
		if s != string(a) {
			t.Fatal("the result was overwritten")
		}
	}
}''', ("strings",)), "a result of more than 2 KB that is still used when the next value is encoded", "large results share the memory of a pooled buffer")

seed("c07-number-zero", "C07", [("encode.go", "num := *(*string)(p)", "if s := (*string)(p); *s == \"\" {\n\t\t*s = \"0\"\n\t}\n\tnum := *(*string)(p)")],
T('''func TestZZDemo(t *testing.T) {
	v := struct{ N json.Number }{}
	b, err := Marshal(&v)
	if err != nil || string(b) != `{"N":0}` || v.N != "" {
		t.Fatalf("%q %v %q", b, err, v.N)
	}
}''', ("encoding/json",)), "an empty json.Number, looked at again after it was encoded", "the zero number is written into the value of the caller")

seed("c08-shared-map", "C08", [("instruction.go", "newCache := make(instrCache, len(cache)+1)\n", "if cache != nil {\n\t\tcache[key] = instr\n\t\treturn\n\t}\n\tnewCache := make(instrCache, len(cache)+1)\n")],
T('''func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 1; i < 40; i++ {
				v := reflect.New(reflect.ArrayOf(g*100+i, reflect.TypeOf(uint16(0)))).Elem().Interface()
				if _, err := Marshal(v); err != nil {
					t.Error(err)
				}
			}
		}(g)
	}
	wg.Wait()
}''', ("reflect", "sync")), "goroutines that encode new types at the same time", "the published map of encoders is modified in place", race=True)

seed("c09-syncmap-shadow", "C09", [("encode.go", "if buf.B, err = encodeInterface(unsafe.Pointer(&value), buf.B, opts); err != nil {\n\t\t\treturn false\n\t\t}\n", "b, err := encodeInterface(unsafe.Pointer(&value), buf.B, opts)\n\t\tif err != nil {\n\t\t\treturn false\n\t\t}\n\t\tbuf.B = b\n")],
T('''func TestZZDemo(t *testing.T) {
	var m sync.Map
	m.Store("a", make(chan int))
	if b, err := Marshal(&m); err == nil {
		t.Fatalf("%q", b)
	}
}''', ("sync",)), "a sync.Map with a value that cannot be encoded", "the error of a value is dropped and the entry left out silently")

seed("c09-ptr-type", "C09", [("encode.go", "return dst, &MarshalerError{t, err, marshalerAppendJSON}", "return dst, &MarshalerError{t, err, marshalerAppendJSONCtx}")],
T('''type zzM struct{}

func (zzM) AppendJSON(dst []byte) ([]byte, error) { return dst, errors.New("x") }

func TestZZDemo(t *testing.T) {
	_, err := Marshal(zzM{})
	if err == nil || !strings.Contains(err.Error(), "AppendJSON") || strings.Contains(err.Error(), "Context") {
		t.Fatal(err)
	}
}''', ("errors", "strings")), "an AppendJSON method that fails", "the error names another method than the one that was called")

seed("c10-nil-option", "C10", [("options.go", "if opt != nil {\n\t\t\topt(eo)\n\t\t}", "if opt == nil {\n\t\t\tbreak\n\t\t}\n\t\topt(eo)")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts(time.Duration(1500000000), nil, DurationFormat(DurationString))
	if err != nil || string(b) != `"1.5s"` {
		t.Fatalf("%q %v", b, err)
	}
}''', ("time",)), "a nil option before another one", "options after a nil option are ignored")

seed("c10-nested-lists", "C10", [("encode.go", "return ins(unpackEface(v).word, dst, opts)\n}\n\nfunc encodeNumber", "if opts.flags == 0 {\n\t\topts.durationFmt = defaultDurationFmt\n\t}\n\treturn ins(unpackEface(v).word, dst, opts)\n}\n\nfunc encodeNumber")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts([]interface{}{time.Second}, DurationFormat(DurationSeconds))
	if err != nil || string(b) != `[1]` {
		t.Fatalf("%q %v", b, err)
	}
}''', ("time",)), "a duration inside an interface value, with a duration format and no flag option", "the duration format is not applied inside interfaces")

seed("c11-uintptr", "C11", [("integer.go", "return strconv.AppendUint(dst, uint64(*(*uintptr)(p)), 10), nil", "return strconv.AppendInt(dst, int64(*(*uintptr)(p)), 10), nil")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal(^uintptr(0))
	if err != nil || string(b) != "18446744073709551615" {
		t.Fatalf("%q %v", b, err)
	}
}'''), "a uintptr above the greatest int64", "large uintptr values are written as negative numbers")

seed("c11-quoted-key", "C11", [("types.go", "reflect.Uint16,\n\t\treflect.Uint32,", "reflect.Uint32,")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal(map[uint16]int{7: 1})
	if err != nil || string(b) != `{"7":1}` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "a map with keys of type uint16, or such a field with the string option", "uint16 is no longer an integer kind for keys and quoting")

seed("c12-text-before-json", "C12", [("instruction.go", "\tcase !isPtr && canAddr && ptrTo.Implements(jsonMarshalerType):\n\t\treturn newJSONMarshalerInstr(t, true)\n\tcase t.Implements(textMarshalerType):\n\t\treturn newTextMarshalerInstr(t, false)\n", "\tcase t.Implements(textMarshalerType):\n\t\treturn newTextMarshalerInstr(t, false)\n\tcase !isPtr && canAddr && ptrTo.Implements(jsonMarshalerType):\n\t\treturn newJSONMarshalerInstr(t, true)\n")],
T('''type zzM struct{ A int }

func (zzM) MarshalText() ([]byte, error)  { return []byte("text"), nil }
func (*zzM) MarshalJSON() ([]byte, error) { return []byte("1"), nil }

func TestZZDemo(t *testing.T) {
	b, err := Marshal([]zzM{{}})
	if err != nil || string(b) != `[1]` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "an addressable value whose type has MarshalText by value and MarshalJSON by pointer", "MarshalText is preferred to MarshalJSON")

seed("c13-less", "C13", [("map.go", "bytes.Compare(m.s[i].key, m.s[j].key) < 0", "bytes.Compare(m.s[i].keyval, m.s[j].keyval) < 0")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal(map[string]int{"a": 1, "a!": 2})
	if err != nil || string(b) != `{"a":1,"a!":2}` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "two keys one of which is the other one followed by a space or exclamation mark", "members are sorted with the closing quote of their key")

seed("c13-entry-lost", "C13", [("encode.go", "mel.s = append(mel.s, kv)\n\t\toff = len(buf.B)\n\n\t\treturn true", "if n := len(mel.s); n > 0 && bytes.Equal(mel.s[n-1].keyval, kv.keyval) {\n\t\t\tmel.s[n-1] = kv\n\t\t} else {\n\t\t\tmel.s = append(mel.s, kv)\n\t\t}\n\t\toff = len(buf.B)\n\n\t\treturn true")],
T('''func TestZZDemo(t *testing.T) {
	var m sync.Map
	m.Store(int8(1), "x")
	m.Store(int16(1), "x")
	b, err := Marshal(&m)
	if err != nil || string(b) != `{"1":"x","1":"x"}` {
		t.Fatalf("%q %v", b, err)
	}
}''', ("sync",)), "a sync.Map with distinct keys of the same text and equal values, met one after the other", "an entry is dropped")

seed("c14-two-tagged", "C14", [("struct.go", "fields[0].tag == fields[1].tag {", "!fields[0].tag && !fields[1].tag {")],
T('''type ZZA struct {
	X int `json:"n"`
}
type ZZB struct {
	Y int `json:"n"`
}

func TestZZDemo(t *testing.T) {
	b, err := Marshal(struct {
		ZZA
		ZZB
	}{})
	if err != nil || string(b) != `{}` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "two fields at the same depth with the same name, both set by a tag", "one of two conflicting fields is written instead of none")

seed("c14-less-depth", "C14", [("struct.go", "return len(x[i].index) < len(x[j].index)\n\t\t}\n\t\tif x[i].tag", "return len(x[i].index) > len(x[j].index)\n\t\t}\n\t\tif x[i].tag")],
T('''type ZZA struct {
	X int
}
type zzo struct {
	ZZA
	X int
}

func TestZZDemo(t *testing.T) {
	b, err := Marshal(zzo{ZZA{1}, 2})
	if err != nil || string(b) != `{"X":2}` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "a field that hides one of an embedded struct", "the deeper field is written")

seed("c15-uint64-half", "C15", [("types.go", "return *(*uint64)(p) == 0", "return *(*uint32)(p) == 0")],
T('''func TestZZDemo(t *testing.T) {
	v := struct {
		A uint64 `json:",omitempty"`
	}{1 << 40}
	b, err := Marshal(v)
	if err != nil || string(b) != `{"A":1099511627776}` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "a uint64 with omitempty whose low half is zero", "a value that is not zero is left out")

seed("c15-nilable", "C15", [("types.go", "case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:\n\t\treturn true", "case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.Array:\n\t\treturn true")],
T('''func TestZZDemo(t *testing.T) {
	v := struct {
		A [4]uint32 `json:",omitnil"`
	}{[4]uint32{0, 0, 1, 2}}
	b, err := Marshal(v)
	if err != nil || string(b) != `{"A":[0,0,1,2]}` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "an array with omitnil whose first eight bytes are zero", "a field that cannot be nil is left out")

seed("c16-empty-key", "C16", [("types.go", "if fn, ok := emptyFnCache.Load(t); ok {\n\t\treturn fn.(emptyFunc)\n\t}\n\tfn, _ := emptyFnCache.LoadOrStore(t, emptyFuncOf(t))", "k := t.Kind()\n\tif fn, ok := emptyFnCache.Load(k); ok {\n\t\treturn fn.(emptyFunc)\n\t}\n\tfn, _ := emptyFnCache.LoadOrStore(k, emptyFuncOf(t))")],
T('''func TestZZDemo(t *testing.T) {
	type a struct {
		A [0]int `json:",omitempty"`
	}
	type b struct {
		A [1]int `json:",omitempty"`
	}
	x, _ := Marshal(a{})
	y, _ := Marshal(b{})
	if string(x) != `{}` || string(y) != `{"A":[0]}` {
		t.Fatalf("%q %q", x, y)
	}
}'''), "an empty and a non-empty array type, both with omitempty, in this order", "the test for emptiness of one array type is used for another one")

seed("c17-string-header", "C17", [("types.go", "return (*stringHeader)(p).Len == 0", "return (*sliceHeader)(p).Cap == 0")],
T('''func TestZZDemo(t *testing.T) {
	type s struct {
		A string `json:",omitempty"`
		B int
	}
	x, _ := Marshal(s{"x", 0})
	y, _ := Marshal(s{"", 1})
	if string(x) != `{"A":"x","B":0}` || string(y) != `{"B":1}` {
		t.Fatalf("%q %q", x, y)
	}
}'''), "a string with omitempty, followed by another field", "the word behind a string header is read")

seed("c17-array-stride", "C17", [("instruction.go", "ins  = newInstruction(etyp, true, false)\n\t\tsize = etyp.Size()", "ins  = newInstruction(etyp, true, false)\n\t\tsize = (etyp.Size() + 7) &^ 7")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal([]struct{ A uint8 }{{1}, {2}, {3}, {4}, {5}, {6}, {7}, {8}, {9}})
	if err != nil || string(b) != `[{"A":1},{"A":2},{"A":3},{"A":4},{"A":5},{"A":6},{"A":7},{"A":8},{"A":9}]` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "a slice of elements whose size is not a multiple of eight", "elements are read at wrong addresses, beyond the end of the slice")

seed("c18-unix-trunc", "C18", [("encode.go", "return strconv.AppendInt(dst, t.Unix(), 10), nil", "return strconv.AppendInt(dst, t.UnixNano()/1e9, 10), nil")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts(time.Date(3000, 1, 1, 0, 0, 0, 0, time.UTC), UnixTime())
	if err != nil || string(b) != "32503680000" {
		t.Fatalf("%q %v", b, err)
	}
}''', ("time",)), "a time whose nanoseconds do not fit in 64 bits, with UnixTime", "times before 1678 and after 2262 are rendered wrong")

seed("c18-layout", "C18", [("encode.go", "case time.RFC3339:\n\t\treturn appendRFC3339Time(t, dst, false), nil", "case time.RFC3339:\n\t\treturn appendRFC3339Time(t, dst, t.Nanosecond() >= 1e6), nil")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts(time.Date(2000, 1, 1, 0, 0, 0, 5e6, time.UTC), TimeLayout(time.RFC3339))
	if err != nil || string(b) != `"2000-01-01T00:00:00Z"` {
		t.Fatalf("%q %v", b, err)
	}
}''', ("time",)), "a time with milliseconds and the RFC3339 layout", "a fraction is written with the layout without fractions")

seed("c19-millis", "C19", [("encode.go", "return strconv.AppendInt(dst, int64(d)/1e6, 10), nil", "return strconv.AppendInt(dst, int64(d.Seconds()*1e3), 10), nil")],
T('''func TestZZDemo(t *testing.T) {
	for i := int64(0); i < 100000; i++ {
		b, err := MarshalOpts(time.Duration(i*1e6), DurationFormat(DurationMilliseconds))
		if err != nil || string(b) != fmt.Sprint(i) {
			t.Fatalf("%q %v", b, err)
		}
	}
}''', ("time", "fmt")), "one of the durations for which the multiplication of the seconds is not exact", "milliseconds computed in floating point are one too small")

seed("c20-empty-list", "C20", [("options.go", "if eo.allowList != nil {", "if len(eo.allowList) != 0 {")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts(struct{ A int }{}, AllowList(nil))
	if err != nil || string(b) != `{}` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "an allow list without names", "an empty list is treated as no list")

seed("c20-name", "C20", [("options.go", "if _, ok := eo.denyList[name]; ok {\n\t\t\treturn true\n\t\t}", "if _, ok := eo.denyList[name]; ok && eo.allowList == nil {\n\t\t\treturn true\n\t\t}")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts(struct{ A, B int }{}, AllowList([]string{"A", "B"}), DenyList([]string{"A"}))
	if err != nil || string(b) != `{"B":0}` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "a name that is in both lists", "the deny list has no effect next to an allow list")

seed("c21-float32-limit", "C21", [("encode.go", "bs == 32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21) {", "bs == 32 && (abs < 1e-6 || abs >= 1e21) {")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal(float32(1e-6))
	if err != nil || string(b) != `0.000001` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "the float32 nearest to 1e-6 or 1e21", "the magnitude is compared at the wrong precision")

seed("c21-exponent-sign", "C21", [("encode.go", "if n >= 4 && dst[n-4] == 'e' && dst[n-3] == '-' && dst[n-2] == '0' {", "if n >= 4 && dst[n-4] == 'e' && dst[n-2] == '0' {")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal(1e-7)
	if err != nil || string(b) != `1e-7` {
		t.Fatalf("%q %v", b, err)
	}
	t.Skip()
}'''), "x", "x")

seed("c22-number-minus", "C22", [("number.go", "s = s[1:]\n\t\tif s == \"\" {\n\t\t\treturn false\n\t\t}\n\t}\n\t// Digits.", "s = s[1:]\n\t}\n\t// Digits.")],
T('''func TestZZDemo(t *testing.T) {
	if b, err := Marshal(json.Number("-")); err == nil {
		t.Fatalf("%q", b)
	}
}''', ("encoding/json",)), "a json.Number that is a lone minus sign", "the call panics")

seed("c23-empty-bytes", "C23", [("encode.go", "b := *(*[]byte)(p)\n\tif b == nil {", "b := *(*[]byte)(p)\n\tif len(b) == 0 {")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal([]byte{})
	if err != nil || string(b) != `""` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "a byte slice that is empty but not nil", "it encodes as null")

seed("c23-raw-nil", "C23", [("encode.go", "v := *(*json.RawMessage)(p)\n\tif v == nil {", "v := *(*json.RawMessage)(p)\n\tif v == nil && !opts.flags.has(noCompact) {")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts(struct{ A json.RawMessage }{}, NoCompact())
	if err != nil || string(b) != `{"A":null}` {
		t.Fatalf("%q %v", b, err)
	}
}''', ("encoding/json",)), "a nil json.RawMessage with NoCompact", "nothing is written for the value")

seed("c01-inf", "C01", [("encode.go", "if math.IsInf(f, 0) || math.IsNaN(f) {", "if math.IsInf(f, 1) || math.IsNaN(f) {")],
T('''func TestZZDemo(t *testing.T) {
	if b, err := Marshal(math.Inf(-1)); err == nil {
		t.Fatalf("%q", b)
	}
}''', ("math",)), "negative infinity", "-Inf is written as a number")

seed("c01-omit-all", "C01", [("encode.go", "if nxt == '{' {\n\t\treturn append(dst, \"{}\"...), nil\n\t}\n\treturn append(dst, '}'), nil", "if nxt == '{' && key == nil {\n\t\treturn append(dst, \"{}\"...), nil\n\t}\n\treturn append(dst, '}'), nil")],
T('''type zzN struct{ p *int }

func (zzN) MarshalJSON() ([]byte, error) { return []byte("null"), nil }

func TestZZDemo(t *testing.T) {
	b, err := Marshal(struct {
		A zzN `json:",omitnil"`
	}{})
	if err != nil || string(b) != `{}` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "a struct whose only written member is removed again because its marshaler wrote null", "the opening brace is missing")

seed("c01-sync-comma", "C01", [("encode.go", "if n != 0 {\n\t\t\tdst = append(dst, ',')\n\t\t}\n\t\t// Encode the key.", "if n != 0 && dst[len(dst)-1] != '\"' {\n\t\t\tdst = append(dst, ',')\n\t\t}\n\t\t// Encode the key.")],
T('''func TestZZDemo(t *testing.T) {
	var m sync.Map
	m.Store("a", "x")
	m.Store("b", "y")
	b, err := MarshalOpts(&m, UnsortedMap())
	if err != nil || !json.Valid(b) {
		t.Fatalf("%q %v", b, err)
	}
}''', ("encoding/json", "sync")), "a sync.Map of strings with more than one entry and UnsortedMap", "the comma after a string value is missing")

BP = '''package main

import (
	"bufio"
	"strings"
	"testing"
)

'''
seed("c24-last-line", "C24", [("tools/benchparse/benchparse.go", "f, err := strconv.ParseFloat(r[1], 64)\n\t\tif err != nil {", "f, err := strconv.ParseFloat(r[1], 64)\n\t\tif err != nil && unit != \"ns/op\" {")],
BP + '''func TestZZDemo(t *testing.T) {
	s, err := parse(bufio.NewScanner(strings.NewReader("name,time (ns/op)\\nA/b-8,x\\n")))
	if err == nil {
		t.Fatal(s)
	}
}
''', "a malformed number in the section of the times", "it is stored as zero", pkg="./tools/benchparse")

seed("c24-unit", "C24", [("tools/benchparse/benchparse.go", "if _, ok := stats[bname]; !ok {\n\t\t\tstats[bname] = nil\n\t\t}", "if _, ok := stats[bname]; !ok && unit != \"ns/op\" {\n\t\t\tcontinue\n\t\t}")],
BP + '''func TestZZDemo(t *testing.T) {
	s, err := parse(bufio.NewScanner(strings.NewReader("name,time (ns/op)\\n\\nname,alloc (B/op)\\nA/b-8,1\\n")))
	if err != nil || len(s["A"]) != 1 {
		t.Fatal(s, err)
	}
}
''', "a benchmark that only appears in a later section", "its records are dropped", pkg="./tools/benchparse")

want = sys.argv[1:]
seed("c14-shared-path", "C14", [("struct.go", "append(f.embedSeq[:len(f.embedSeq):len(f.embedSeq)], seq", "append(f.embedSeq, seq")],
T('''type zzP struct{ P int }
type zzQ struct{ Q int }
type zzL3 struct {
	zzP
	zzQ
}
type zzL2 struct{ zzL3 }
type zzL1 struct{ zzL2 }
type zzL0 struct{ zzL1 }

func TestZZDemo(t *testing.T) {
	var v zzL0
	v.P, v.Q = 1, 2
	b, err := Marshal(v)
	if err != nil || string(b) != `{"P":1,"Q":2}` {
		t.Fatalf("%s %v", b, err)
	}
}'''), "two embedded structs next to each other, four levels deep, where the list of steps has spare room", "both share the last step, so the fields of the first are read from the second")

seed("c14-superscript", "C14", [("struct.go", "!unicode.IsLetter(c) && !unicode.IsDigit(c)", "!unicode.IsLetter(c) && !unicode.IsNumber(c)")],
T('''func TestZZDemo(t *testing.T) {
	v := struct {
		Area int `json:"m\\u00B2"`
	}{1}
	b, err := Marshal(v)
	w, _ := json.Marshal(v)
	if err != nil || string(b) != string(w) {
		t.Fatalf("%s %s %v", b, w, err)
	}
}'''.replace("m\\u00B2", "m\u00B2"), ("encoding/json",)), "a tag name with a number character that is not a digit", "a name encoding/json finds invalid is used")

seed("c14-tag-equals-name", "C14", [("struct.go", "\t\t\ttagged := name != \"\"\n", "\t\t\ttagged := name != \"\" && name != sf.Name\n")],
T('''type zzA struct {
	X int `json:"X"`
}
type zzB struct{ X int }

func TestZZDemo(t *testing.T) {
	v := struct {
		zzA
		zzB
	}{zzA{1}, zzB{2}}
	b, err := Marshal(v)
	if err != nil || string(b) != `{"X":1}` {
		t.Fatalf("%s %v", b, err)
	}
}'''), "two fields of the same name at the same depth, one with a tag that repeats its Go name", "the tag does not count, so that both fields are dropped")


seed("c16-type-name", "C16", [("instruction.go", 'id := fmt.Sprintf("%p-%t", typeID(t), canAddr)', 'id := fmt.Sprintf("%p-%t", typeID(t), canAddr)\n\tif t.Kind() == reflect.Slice {\n\t\tid = fmt.Sprintf("[]%s-%t", t.Elem(), canAddr)\n\t}')],
T('''func zzFirst() interface{} {
	type item struct{ A int64 }
	return []item{{1}}
}

func zzSecond() interface{} {
	type item struct{ B uint64 }
	return []item{{2}}
}

func TestZZDemo(t *testing.T) {
	if b, err := Marshal(zzFirst()); err != nil || string(b) != `[{"A":1}]` {
		t.Fatalf("%s %v", b, err)
	}
	if b, err := Marshal(zzSecond()); err != nil || string(b) != `[{"B":2}]` {
		t.Fatalf("%s %v", b, err)
	}
}'''), "two types with the same name in one process", "the encoder of the first is used for the second")

seed("c16-seen", "C16", [("struct.go", "ccnt, ncnt = ncnt, make(map[reflect.Type]int)", "ccnt, ncnt = ncnt, make(map[reflect.Type]int)\n\t\tif len(curr) == 1 {\n\t\t\tseen = make(map[reflect.Type]bool)\n\t\t}")],
T('''type zzA struct {
	*zzB
	X int
}
type zzB struct {
	*zzA
	Y int
}

func TestZZDemo(t *testing.T) {
	done := make(chan string, 1)
	go func() {
		b, _ := Marshal(zzA{zzB: &zzB{Y: 2}, X: 1})
		done <- string(b)
	}()
	select {
	case b := <-done:
		if b != `{"Y":2,"X":1}` {
			t.Fatal(b)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("no result")
	}
}''', ("time",)), "two struct types that embed pointers to each other", "the visit of the embedded structs never ends")

seed("c16-map-guard", "C16", [("instruction.go", "	case reflect.Map:\n		return newRecursiveInstr(t, canAddr, newMapInstr)", "	case reflect.Map:\n		if t.Elem().Kind() == reflect.Map {\n			return newMapInstr(t, canAddr)\n		}\n		return newRecursiveInstr(t, canAddr, newMapInstr)")],
T('''type zzM map[string]zzM

func TestZZDemo(t *testing.T) {
	b, err := Marshal(zzM{"a": {"b": nil}})
	if err != nil || string(b) != `{"a":{"b":null}}` {
		t.Fatalf("%s %v", b, err)
	}
}'''), "a map type that is its own element type", "preparing the encoder overflows the stack")

seed("c17-int32-width", "C17", [("types.go", "			return *(*int32)(p) == 0", "			return *(*int64)(p) == 0")],
T('''func TestZZDemo(t *testing.T) {
	type x struct {
		A int32 `json:"a,omitempty"`
		B int32 `json:"b"`
	}
	b, err := Marshal(x{B: 7})
	if err != nil || string(b) != `{"b":7}` {
		t.Fatalf("%s %v", b, err)
	}
}'''), "an empty int32 with omitempty that is followed by another member in the same word", "memory outside of the value is read, and the empty member is written")

seed("c17-key-word", "C17", [("types.go", "	case reflect.Struct:\n		return t.NumField() == 1 && isInlined(t.Field(0).Type)", "	case reflect.Struct:\n		return t.NumField() == 1 && t.Field(0).Type.Kind() == reflect.Ptr")],
T('''func TestZZDemo(t *testing.T) {
	type in struct{ M map[string]int }
	b, err := Marshal(in{map[string]int{"a": 1}})
	if err != nil || string(b) != `{"M":{"a":1}}` {
		t.Fatalf("%s %v", b, err)
	}
}'''), "a struct with a single map as the value", "the word of the interface is taken for the address of the struct")

seed("c22-line-separator", "C22", [("encode.go", "if c == 0xE2 && i+2 < len(src) && src[i+1] == 0x80", "if c == 0xE2 && i+1 < len(src) && src[i+1] == 0x80")],
T('''type zzJ struct{}

func (zzJ) MarshalJSON() ([]byte, error) {
	return json.RawMessage("\\"\\xe2\\x80"), nil
}

func TestZZDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	dst, _ := appendCompactJSON(nil, []byte("\\"\\xe2\\x80"), true)
	if string(dst) != "\\"\\xe2\\x80" {
		t.Fatalf("%q", dst)
	}
}''', ("encoding/json",)), "a text that is cut after the first two bytes of a three-byte character", "an index out of range panics")

seed("c19-seconds-float", "C19", [("encode.go", "appendFloat(dst, d.Seconds(), 64)", "appendFloat(dst, float64(d)/1e9, 64)")],
T('''func TestZZDemo(t *testing.T) {
	for _, d := range []time.Duration{math.MaxInt64, 1<<62 + 123456789, 9007199254740993, -9007199254740993, 9100000000000001} {
		b, err := MarshalOpts(d, DurationFormat(DurationSeconds))
		w, _ := json.Marshal(d.Seconds())
		if err != nil || string(b) != string(w) {
			t.Errorf("%s %s %v", b, w, err)
		}
	}
}''', ("time", "math", "encoding/json")), "a duration in seconds whose nanoseconds do not fit the mantissa of a float", "the seconds are rounded twice")

seed("c19-micro-round", "C19", [("encode.go", "int64(d)/1e3, 10)", "d.Round(time.Microsecond).Microseconds(), 10)")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts(1999*time.Nanosecond, DurationFormat(DurationMicroseconds))
	if err != nil || string(b) != "1" {
		t.Fatalf("%s %v", b, err)
	}
}''', ("time",)), "a duration that is not a whole number of microseconds", "the microseconds are rounded instead of truncated")

seed("c19-milli-shift", "C19", [("encode.go", "int64(d)/1e6, 10)", "int64(d)>>6/15625, 10)")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts(-999999*time.Nanosecond, DurationFormat(DurationMilliseconds))
	if err != nil || string(b) != "0" {
		t.Fatalf("%s %v", b, err)
	}
}''', ("time",)), "a negative duration just above a whole number of milliseconds", "the milliseconds of a negative duration are rounded down")

seed("c10-duration-default", "C10", [("options.go", "		o.durationFmt = format\n", "		if format != defaultDurationFmt {\n			o.durationFmt = format\n		}\n")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts(time.Second, DurationFormat(DurationString), DurationFormat(DurationNanoseconds))
	if err != nil || string(b) != "1000000000" {
		t.Fatalf("%s %v", b, err)
	}
}''', ("time",)), "a duration format that is set back to the default", "the last option given is ignored")

seed("c10-flag-first", "C10", [("options.go", "o.flags.set(noCompact) }", "if o.flags == 0 { o.flags.set(noCompact) } }")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts(json.RawMessage("[1, 2]"), UnixTime(), NoCompact())
	if err != nil || string(b) != "[1, 2]" {
		t.Fatalf("%s %v", b, err)
	}
}''', ("encoding/json",)), "NoCompact after an option that sets another flag", "the option has no effect")

seed("c10-toggle", "C10", [("options.go", "o.flags.set(noCompact) }", "o.flags ^= noCompact }")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts(json.RawMessage("[1, 2]"), NoCompact(), NoCompact())
	if err != nil || string(b) != "[1, 2]" {
		t.Fatalf("%s %v", b, err)
	}
}''', ("encoding/json",)), "NoCompact given twice", "the second occurrence undoes the first")

seed("c20-allow-merge", "C20", [("options.go", "		o.allowList = m\n", "		if o.allowList == nil {\n			o.allowList = m\n		}\n")],
T('''func TestZZDemo(t *testing.T) {
	type x struct{ A, B int }
	b, err := MarshalOpts(x{1, 2}, AllowList([]string{"A"}), AllowList([]string{"B"}))
	if err != nil || string(b) != `{"B":2}` {
		t.Fatalf("%s %v", b, err)
	}
}'''), "two AllowList options in the same call", "the list of the last option is not the one that is used")

seed("c20-promoted", "C20", [("encode.go", "		if opts.isDeniedField(f.name) {\n			continue", "		if len(f.embedSeq) == 1 && opts.isDeniedField(f.name) {\n			continue")],
T('''func TestZZDemo(t *testing.T) {
	type In struct{ A, B int }
	type x struct {
		In
		C int
	}
	b, err := MarshalOpts(x{In{1, 2}, 3}, DenyList([]string{"A"}))
	if err != nil || string(b) != `{"B":2,"C":3}` {
		t.Fatalf("%s %v", b, err)
	}
}'''), "a list that names a field promoted from an embedded struct", "the promoted field is written")

seed("c15-null-first", "C15", [("encode.go", "f.omitNullMarshaler && len(dst) > 4 &&", "f.omitNullMarshaler && len(dst) > 4 && lastNxt == ',' &&")],
T('''func TestZZDemo(t *testing.T) {
	type x struct {
		A json.RawMessage `json:"a,omitnil"`
		B int             `json:"b"`
	}
	b, err := Marshal(x{A: json.RawMessage("null"), B: 1})
	if err != nil || string(b) != `{"b":1}` {
		t.Fatalf("%s %v", b, err)
	}
}''', ("encoding/json",)), "an omitnil marshaler that writes null as the first member", "the member is kept")

seed("c15-null-inside", "C15", [("encode.go", 'bytes.Compare(dst[len(dst)-4:], []byte("null")) == 0', 'bytes.Contains(dst[lastKeyOffset:], []byte("null"))')],
T('''func TestZZDemo(t *testing.T) {
	type x struct {
		A json.RawMessage `json:"a,omitnil"`
	}
	b, err := Marshal(x{A: json.RawMessage(`[null,1]`)})
	if err != nil || string(b) != `{"a":[null,1]}` {
		t.Fatalf("%s %v", b, err)
	}
}''', ("encoding/json",)), "an omitnil marshaler whose text contains null without being null", "the member is dropped")

seed("c15-omitnil-and-empty", "C15", [("struct.go", 'opts.Contains("omitnil")', 'opts.Contains("omitnil") && !opts.Contains("omitempty")')],
T('''func TestZZDemo(t *testing.T) {
	type x struct {
		A json.RawMessage `json:"a,omitempty,omitnil"`
	}
	b, err := Marshal(x{A: json.RawMessage("null")})
	if err != nil || string(b) != `{}` {
		t.Fatalf("%s %v", b, err)
	}
}''', ("encoding/json",)), "a field with both omitempty and omitnil whose marshaler writes null", "omitnil has no effect beside omitempty")

seed("c09-unsorted-value", "C09", [("encode.go", "		if dst, err = vi(it.val, dst, opts); err != nil {\n			return dst, err\n		}\n		n++", "		if dst, err = vi(it.val, dst, opts); err != nil {\n			return dst, nil\n		}\n		n++")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts(map[string]float64{"a": math.Inf(1)}, UnsortedMap())
	if err == nil {
		t.Fatalf("%s", b)
	}
}''', ("math",)), "a map without sorting that has a value which cannot be encoded", "the error is lost and an incomplete text is returned")

seed("c13-quote", "C13", [("encode.go", "kv.key = buf.B[off+1 : len(buf.B)-1]\n\n		// Add separator after key.\n		buf.B = append(buf.B, ':')\n\n		// Encode the value and store the buffer\n		// portion corresponding to the semicolon\n		// delimited key/value pair.\n		if buf.B, err = vi", "kv.key = buf.B[off+1:]\n\n		// Add separator after key.\n		buf.B = append(buf.B, ':')\n\n		// Encode the value and store the buffer\n		// portion corresponding to the semicolon\n		// delimited key/value pair.\n		if buf.B, err = vi")],
T('''func TestZZDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		b, err := Marshal(map[string]int{"a": 1, "a!": 2, "a ": 3})
		if err != nil || string(b) != `{"a":1,"a ":3,"a!":2}` {
			t.Fatalf("%s %v", b, err)
		}
	}
}'''), "a key that is a prefix of another one whose next byte is below the quote", "the closing quote takes part in the comparison")

seed("c04-short-values", "C04", [("encode.go", "	if opts.flags.has(noCompact) {\n		return append(dst, b...), nil\n	}\n	// This", "	if opts.flags.has(noCompact) || len(b) < 3 {\n		return append(dst, b...), nil\n	}\n	// This")],
T('''type zzJ struct{}

func (zzJ) MarshalJSON() ([]byte, error) { return []byte("1 "), nil }

func TestZZDemo(t *testing.T) {
	b, err := Marshal(zzJ{})
	if err != nil || string(b) != "1" {
		t.Fatalf("%q %v", b, err)
	}
}'''), "a MarshalJSON that returns one or two bytes with white space", "the space is kept, and a text that is not valid is accepted")

seed("c04-tab", "C04", [("encode.go", r"case ' ', '\n', '\r', '\t':", r"case ' ', '\n', '\r':")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal(json.RawMessage("[\\t1,\\t2]"))
	if err != nil || string(b) != "[1,2]" {
		t.Fatalf("%q %v", b, err)
	}
}''', ("encoding/json",)), "a RawMessage indented with tabs", "the tabs are kept")

seed("c04-escaped-backslash", "C04", [("encode.go", "			skipNext = false\n			continue\n", "			skipNext = c == '\\\\'\n			continue\n")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal(json.RawMessage(`["a\\\\" , 1]`))
	if err != nil || string(b) != `["a\\\\",1]` {
		t.Fatalf("%q %v", b, err)
	}
}''', ("encoding/json",)), "a string that ends with an escaped backslash, followed by white space", "the end of the string is missed, and the spaces after it are kept")

seed("c01-empty-json", "C01", [("encode.go", "	if !json.Valid(b) {\n		return dst, &M", "	if len(b) > 0 && !json.Valid(b) {\n		return dst, &M")],
T('''type zzJ struct{}

func (zzJ) MarshalJSON() ([]byte, error) { return nil, nil }

func TestZZDemo(t *testing.T) {
	b, err := Marshal([]zzJ{{}})
	if err == nil {
		t.Fatalf("%q", b)
	}
}'''), "a MarshalJSON that returns no bytes", "an empty text is accepted as a value")

seed("c12-text-nil", "C12", [("encode.go", "	dst = append(dst, '\"')\n	dst = appendEscapedBytes(dst, b, opts)\n	dst = append(dst, '\"')\n\n	return dst, nil\n}\n\n// appendCompactJSON", "	if b == nil {\n		return append(dst, \"null\"...), nil\n	}\n	dst = append(dst, '\"')\n	dst = appendEscapedBytes(dst, b, opts)\n	dst = append(dst, '\"')\n\n	return dst, nil\n}\n\n// appendCompactJSON")],
T('''type zzT struct{ B []byte }

func (z zzT) MarshalText() ([]byte, error) { return z.B, nil }

func TestZZDemo(t *testing.T) {
	b, err := Marshal(zzT{})
	if err != nil || string(b) != `""` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "a MarshalText that returns a nil slice", "null is written instead of an empty string")

seed("c10-context", "C10", [("encode.go", "AppendJSONContext(opts.ctx, dst)", "AppendJSONContext(context.WithoutCancel(opts.ctx), dst)"), ("encode.go", "import (\n", "import (\n	\"context\"\n")],
T('''type zzC struct{}

func (zzC) AppendJSONContext(ctx context.Context, dst []byte) ([]byte, error) {
	if err := ctx.Err(); err != nil {
		return dst, err
	}
	return append(dst, '1'), nil
}

func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	b, err := MarshalOpts(zzC{}, WithContext(ctx))
	if err == nil {
		t.Fatalf("%q", b)
	}
}''', ("context",)), "a marshaler that looks at the cancellation of its context", "the marshaler does not receive the context of the caller")

seed("c02-delete", "C02", [("encode.go", "if c >= ' ' && c != '\\\\'", "if c >= ' ' && c != 0x7f && c != '\\\\'")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal("a\\x7fb")
	if err != nil || string(b) != "\\"a\\x7fb\\"" {
		t.Fatalf("%q %v", b, err)
	}
}'''), "a string that contains the character U+007F", "a character that needs no escape is escaped")

seed("c02-coerce", "C02", [("encode.go", "		if !noCoerce {\n			// Coerce", "		if !noCoerce && !noEscape {\n			// Coerce")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts("a\\xffb", NoHTMLEscaping())
	if err != nil || string(b) != `"a\\ufffdb"` {
		t.Fatalf("%q %v", b, err)
	}
}'''), "an invalid byte in a string that is encoded with NoHTMLEscaping", "the byte is copied as it is")

seed("c23-nil-map-flag", "C23", [("encode.go", "	if m == nil {\n		if opts.flags.has(nilMapEmpty) {", "	if m == nil {\n		if opts.flags.has(nilMapEmpty|nilSliceEmpty) {")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts(map[string]int(nil), NilSliceEmpty())
	if err != nil || string(b) != "null" {
		t.Fatalf("%s %v", b, err)
	}
}'''), "a nil map with the option for nil slices", "the map is written as an empty object")

seed("c18-unix-year", "C18", [("encode.go", "	if y < 0 || y >= 10000 {", "	if !opts.flags.has(unixTime) && (y < 0 || y >= 10000) {")],
T('''func TestZZDemo(t *testing.T) {
	b, err := MarshalOpts(time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), UnixTime())
	if err == nil {
		t.Fatalf("%s", b)
	}
}''', ("time",)), "a time after the year 9999 as a Unix time", "a time outside of the range is accepted")

seed("c07-array-zero", "C07", [("encode.go", "	b := *(*[]byte)(p)\n	if b == nil {\n", "	b := *(*[]byte)(p)\n	if len(b) == 0 {\n		*(*[]byte)(p) = b[:0:0]\n	}\n	if b == nil {\n")],
T('''func TestZZDemo(t *testing.T) {
	x := struct{ B []byte }{make([]byte, 0, 8)}
	if _, err := Marshal(&x); err != nil {
		t.Fatal(err)
	}
	if cap(x.B) != 8 {
		t.Fatal(cap(x.B))
	}
}'''), "an empty []byte with room for more bytes", "encoding cuts the capacity of the caller's slice")

seed("c03-trailing-dot", "C03", [("number.go", "	if len(s) >= 2 && s[0] == '.' && '0' <= s[1] && s[1] <= '9' {", "	if len(s) >= 2 && s[0] == '.' && '0' <= s[1] && s[1] <= ':' {")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal(json.Number("1.:"))
	if err == nil {
		t.Fatalf("%s", b)
	}
}''', ("encoding/json",)), "a json.Number with a colon after the dot", "a text that is not a number is accepted")

seed("c03-leading-zero", "C03", [("number.go", "	case s[0] == '0':\n		s = s[1:]\n", "	case s[0] == '0':\n		s = s[1:]\n		if len(s) > 1 && s[0] == 'x' {\n			return true\n		}\n")],
T('''func TestZZDemo(t *testing.T) {
	b, err := Marshal(json.Number("0x1f"))
	if err == nil {
		t.Fatalf("%s", b)
	}
}''', ("encoding/json",)), "a json.Number in hexadecimal", "a text that is not a JSON number is accepted")

seed("c22-duration-buffer", "C22", [("time.go", "	var buf [32]byte\n", "	var buf [24]byte\n")],
T('''func TestZZDemo(t *testing.T) {
	for _, d := range []time.Duration{-1 << 63, 1<<63 - 1, -(1<<63 - 1)} {
		b, err := MarshalOpts(d, DurationFormat(DurationString))
		if err != nil || string(b) != `"`+d.String()+`"` {
			t.Fatalf("%s %v", b, err)
		}
	}
}''', ("time",)), "a negative duration with all of its digits", "the local buffer is too small")

seed("c07-newline", "C07", [("encode.go", "	if opts.flags.has(noCompact) {\n		return append(dst, b...), nil\n	}\n	// This", "	if opts.flags.has(noCompact) {\n		if n := len(b); n > 0 && b[n-1] == '\\n' {\n			b[n-1] = ' '\n		}\n		return append(dst, b...), nil\n	}\n	// This")],
T('''type zzJ struct{ b []byte }

func (z zzJ) MarshalJSON() ([]byte, error) { return z.b, nil }

func TestZZDemo(t *testing.T) {
	z := zzJ{[]byte("1\\n")}
	if _, err := MarshalOpts(z, NoCompact()); err != nil {
		t.Fatal(err)
	}
	if string(z.b) != "1\\n" {
		t.Fatalf("%q", z.b)
	}
}'''), "a MarshalJSON that returns a slice it keeps, with a line end, and NoCompact", "the bytes of the value are changed")

seed("c07-raw-pad", "C07", [("encode.go", "	b := *(*[]byte)(p)\n	if b == nil {\n		return append(dst, \"null\"...), nil\n	}\n	dst = append(dst, '\"')\n\n	if opts.flags.has(rawByteSlice) {\n		dst = appendEscapedBytes(dst, b, opts)\n", "	b := *(*[]byte)(p)\n	if b == nil {\n		return append(dst, \"null\"...), nil\n	}\n	dst = append(dst, '\"')\n\n	if opts.flags.has(rawByteSlice) {\n		dst = appendEscapedBytes(dst, append(b, ' ')[:len(b)], opts)\n")],
T('''func TestZZDemo(t *testing.T) {
	b := []byte("abc")
	if _, err := MarshalOpts(b[:2], RawByteSlice()); err != nil {
		t.Fatal(err)
	}
	if string(b) != "abc" {
		t.Fatalf("%q", b)
	}
}'''), "a []byte with room behind its end", "the byte behind the slice is overwritten")

for a, k in S:
    if not want or a[0] in want:
        make(*a, **k)
