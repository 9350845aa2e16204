package main

import "strings"

// The checks that compare every encoder with the rule of its type.

const oracleRule = "The function that makes encoders is run abstractly for an unknown type: every way it can make one (a type test, a method test, a kind, the string option, addressability) is enumerated with what is known about the type on that path. Every encoder made is then run abstractly on an unknown value, buffer and options, which yields all its paths, with loops as transition systems. Each path is compared with what the rule of the type demands. "

type oracleProp struct {
	rule string
	need []string // rules that must have been applied, by prefix
}

var oracleProps = map[string]oracleProp{
	"C10": {"Here: each option that changes a case (NilMapEmpty, NilSliceEmpty, RawByteSlice, ByteArrayAsString, UnixTime, TimeLayout, DurationFormat, NoCompact, NoNumberValidation) must select exactly the documented output, and every nested encoder call must be given the options of the call unchanged, the context included. Each exported option is run abstractly: it must set its own field or flag, whatever the others are, and accept any argument; the loop that applies options must apply all of them and skip nil ones; invalid settings must be rejected before anything is encoded.",
		[]string{"slice / nil / NilSliceEmpty", "map / nil / NilMapEmpty", "byte slice / RawByteSlice", "byte array / ByteArrayAsString", "time.Time / UnixTime", "json.RawMessage / NoCompact", "json.Number / NoNumberValidation", "interface"}},
	"C11": {"Here: the rule of every kind. The encoder made for a kind reads the value with the width and signedness of the kind, writes the text its kind demands, in quotes exactly with the string option on booleans, integers, floats and strings; slices and arrays write all elements, in order, each read at base + index * element size by the encoder of the element type; unsupported kinds and map keys fail with UnsupportedTypeError; map keys are written as strings by the rule of their type; the string option of the tag of a member, and nothing else, makes its encoder quote.",
		[]string{"bool", "int / string option", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "string", "string / string option", "slice", "byte slice", "array", "pointer", "interface", "struct", "map", "complex64", "chan", "func", "unsafe pointer", "key string", "key integer", "key text", "key unsupported", "top level value"}},
	"C12": {"Here: types are told apart in the documented order (types with their own encoding, AppendJSONContext, AppendJSON, MarshalJSON, MarshalText, kinds), pointer receivers only where the value can be addressed (a member of a struct can if the struct can or an embedded pointer leads to it); a nil pointer or interface is written as null without a call; the method is called on the value itself, made of the right type word and data word; its text is escaped, or checked and compacted.",
		[]string{"AppendMarshalerCtx method", "AppendMarshalerCtx method of the pointer", "AppendMarshaler method", "AppendMarshaler method of the pointer", "Marshaler method", "Marshaler method of the pointer", "TextMarshaler method", "TextMarshaler method of the pointer", "pointer to time.Time", "pointer to sync.Map", "top level pointer", "top level value"}},
	"C19": {"Here: for a time.Duration, as a value, a map key or with the string option, each of the six formats must write its own unit: the nanoseconds, their integer quotient by 1e3 or 1e6, Duration.Seconds or Duration.Minutes as a float, or the text of String in quotes.",
		[]string{"time.Duration / DurationNanoseconds", "time.Duration / DurationMicroseconds", "time.Duration / DurationMilliseconds", "time.Duration / DurationSeconds", "time.Duration / DurationMinutes", "time.Duration / DurationString", "key duration / DurationNanoseconds"}},
	"C21": {"Here: for float32 and float64 values the format, precision and bit size handed to the float formatter are compared with the interval of magnitudes for which the path is taken, as exact rational bounds: 'e' exactly for non-zero values below 1e-6 or from 1e21 on, at the precision of the type; precision -1; the shortening of a two-digit negative exponent exactly where its bytes were tested. NaN and infinities must have been excluded on every path that writes, and fail with UnsupportedValueError.",
		[]string{"float32", "float64", "float32 / not finite", "float64 / not finite", "float64 / string option"}},
	"C23": {"Here: the paths on which the data word of a pointer, interface, map, slice, byte slice or json.RawMessage is nil must write null, or the empty form with its option, those on which it is not nil must not.",
		[]string{"slice / nil / NilSliceEmpty", "map / nil / NilMapEmpty", "pointer", "interface", "byte slice", "json.RawMessage", "slice"}},
}

func init() {
	for id := range oracleProps {
		id := id
		checks[id] = func(c *Check) { c.fromOracle(id) }
	}
}

// oracle applies all rules, once.
func (L *Lab) oracle() *Oracle {
	if L.orc == nil {
		L.orc = newOracle(L)
		L.orc.runAll()
	}
	return L.orc
}

func (c *Check) fromOracle(id string) {
	p := oracleProps[id]
	c.rule = oracleRule + p.rule
	o := c.L.oracle()
	c.takeOracle(o, id)
	for _, n := range p.need {
		if o.hits[n] == 0 {
			found := false
			for h := range o.hits {
				found = found || strings.HasPrefix(h, n+" ")
			}
			if !found {
				c.undecided("the rule %q was not applied to any path", n)
			}
		}
	}
	for _, n := range p.need {
		c.sample("rule %q compared with %d paths", n, o.hits[n])
	}
	if id == "C12" || id == "C23" {
		for _, x := range c.L.runAll() {
			for _, ob := range x.oblig {
				if ob.kind == "nilassert" && ob.fail > 0 {
					c.violate(c.L.at(ob.in), shortName(ob.fn), "a nil interface is not written as null but makes the call fail: "+ob.why, "from "+x.name)
				}
			}
		}
	}
	if f := oracleMore[id]; f != nil {
		f(c)
	}
}

// oracleMore are further rules of a property.
var oracleMore = map[string]func(c *Check){}

func (c *Check) takeOracle(o *Oracle, id string) {
	for n := range o.fns {
		c.saw(n)
	}
	c.count("encoders", o.insts)
	c.count("paths", o.paths)
	for _, n := range o.hits {
		c.count("comparisons", n)
	}
	for _, v := range o.out {
		mine := len(v.props) == 0
		for _, q := range v.props {
			mine = mine || q == id
		}
		if !mine {
			continue
		}
		if v.und {
			c.undecided("%s %s: %s", v.where, v.fn, v.msg)
		} else {
			c.violate(v.where, v.fn, v.msg, v.path)
		}
	}
}
