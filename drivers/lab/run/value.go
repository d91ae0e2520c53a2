package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Values of the specification: a message is an object from field names to
// values ([] is the empty one), a repeated field a list, a map a list of
// [key, value] pairs, a scalar a token.

func unq(s string) string {
	if r, err := strconv.Unquote(`"` + s + `"`); err == nil {
		return r
	}
	return s
}

func scalar(fd protoreflect.FieldDescriptor, tok string) (protoreflect.Value, error) {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		b, err := strconv.ParseBool(tok)
		return protoreflect.ValueOfBool(b), err
	case protoreflect.EnumKind:
		n, err := strconv.ParseInt(tok, 10, 32)
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(n)), err
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		n, err := strconv.ParseInt(tok, 10, 32)
		return protoreflect.ValueOfInt32(int32(n)), err
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		n, err := strconv.ParseInt(tok, 10, 64)
		return protoreflect.ValueOfInt64(n), err
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		n, err := strconv.ParseUint(tok, 10, 32)
		return protoreflect.ValueOfUint32(uint32(n)), err
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		n, err := strconv.ParseUint(tok, 10, 64)
		return protoreflect.ValueOfUint64(n), err
	case protoreflect.FloatKind:
		if tok == "NaN" {
			return protoreflect.ValueOfFloat32(float32(math.NaN())), nil
		}
		f, err := strconv.ParseFloat(tok, 32)
		return protoreflect.ValueOfFloat32(float32(f)), err
	case protoreflect.DoubleKind:
		f, err := strconv.ParseFloat(tok, 64)
		return protoreflect.ValueOfFloat64(f), err
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(unq(tok)), nil
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(unq(tok))), nil
	}
	return protoreflect.Value{}, fmt.Errorf("no scalar: %v", fd.FullName())
}

func single(fd protoreflect.FieldDescriptor, v interface{}, fresh func() protoreflect.Value) (protoreflect.Value, error) {
	if fd.Kind() == protoreflect.MessageKind {
		m := fresh()
		return m, fill(m.Message(), v)
	}
	s, ok := v.(string)
	if !ok {
		return protoreflect.Value{}, fmt.Errorf("%s: %v is no token", fd.FullName(), v)
	}
	return scalar(fd, s)
}

func fill(m protoreflect.Message, v interface{}) error {
	if l, ok := v.([]interface{}); ok && len(l) == 0 || v == nil {
		return nil
	}
	o, ok := v.(map[string]interface{})
	if !ok {
		return fmt.Errorf("%s: %v is no message", m.Descriptor().FullName(), v)
	}
	for n, x := range o {
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(n))
		if fd == nil {
			return fmt.Errorf("%s has no field %s", m.Descriptor().FullName(), n)
		}
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			for _, kv := range x.([]interface{}) {
				p := kv.([]interface{})
				k, err := scalar(fd.MapKey(), p[0].(string))
				if err != nil {
					return err
				}
				e, err := single(fd.MapValue(), p[1], mp.NewValue)
				if err != nil {
					return err
				}
				mp.Set(k.MapKey(), e)
			}
		case fd.IsList():
			l := m.Mutable(fd).List()
			for _, e := range x.([]interface{}) {
				ev, err := single(fd, e, l.NewElement)
				if err != nil {
					return err
				}
				l.Append(ev)
			}
		default:
			ev, err := single(fd, x, func() protoreflect.Value { return m.NewField(fd) })
			if err != nil {
				return err
			}
			m.Set(fd, ev)
		}
	}
	return nil
}

func build(m proto.Message, raw json.RawMessage) (proto.Message, error) {
	var v interface{}
	d := json.NewDecoder(strings.NewReader(string(raw)))
	if len(raw) > 0 {
		if err := d.Decode(&v); err != nil {
			return nil, err
		}
	}
	return m, fill(m.ProtoReflect(), v)
}
