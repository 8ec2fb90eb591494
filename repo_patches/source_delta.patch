From db85929a4d9d98daabbab037368b1d2378e62b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:56 +0000
Subject: [PATCH 01/78] fix: enc: refuse data after the JSON value

---
 enc/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enc/json.go b/enc/json.go
index 10c01fa..1d4588c 100644
--- a/enc/json.go
+++ b/enc/json.go
@@ -3,6 +3,7 @@ package enc
 import (
 	"bytes"
 	"encoding/json"
+	"io"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -82,5 +83,8 @@ func (this JSON) Decode(c ctx.C, data []byte) (Node, error) {
 	if err != nil {
 		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "%w", err)
 	}
+	if _, err := dec.Token(); err != io.EOF {
+		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "unexpected data after the JSON value")
+	}
 	return fromNative(obj), nil
 }
-- 
2.43.0


From 05e4bf6416996465579bd53e3ba223e548656d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:00 +0000
Subject: [PATCH 02/78] fix: enc: marshal uint64 above MaxInt64 without
 wrapping

---
 enc/handler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/enc/handler.go b/enc/handler.go
index fa079a9..6137ae3 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -3,7 +3,9 @@ package enc
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
+	"strconv"
 	"time"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -212,7 +214,11 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return Integer(v.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return Integer(v.Uint()), nil
+		if u := v.Uint(); u > math.MaxInt64 {
+			return Digits(strconv.FormatUint(u, 10)), nil // doesn't fit an Integer
+		} else {
+			return Integer(u), nil
+		}
 	case reflect.String:
 		return String(v.String()), nil
 	case reflect.Pointer:
-- 
2.43.0


From 3276d65793fd036c47b7fd1c08a94d97f93b7983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:03 +0000
Subject: [PATCH 03/78] fix: enc: omitempty must not drop a pointer to a zero
 value

---
 enc/handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index 6137ae3..c71adeb 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -295,6 +295,12 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 		if err != nil {
 			return nil, err
 		}
+		switch fv.Kind() {
+		case reflect.Pointer, reflect.Interface:
+			if _, null := fn.(Nil); !null {
+				tag.OmitEmpty = false // as in encoding/json, a pointer to a zero value is not empty
+			}
+		}
 		switch fn := fn.(type) {
 		case Nil:
 			if !tag.OmitEmpty {
-- 
2.43.0


From 77893ff4eba840ae7d062b9bea1bcfabef333bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:21 +0000
Subject: [PATCH 04/78] fix: enc: a json:"-" field must not be written by the
 "" key

---
 enc/map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/map.go b/enc/map.go
index 5c84ba2..bb2983f 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -94,6 +94,9 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 			ft := vt.Field(i)
 			if ft.IsExported() {
 				tag := parseTag(ft)
+				if tag.Skip {
+					continue
+				}
 				seen[tag.JSON] = true
 				v, ok := this[tag.JSON]
 				if ok {
-- 
2.43.0


From e1dc5f147c00d05e271fb7726f146a3918c5f426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 05/78] fix: enc: guard the set of warnings already logged

---
 enc/handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index c71adeb..24d4387 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"reflect"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -29,7 +30,7 @@ func (this Handler) Append(p any) Handler {
 	return this
 }
 
-var ineff = map[string]bool{}
+var ineff sync.Map // messages already logged
 
 func MustUnmarshal(c ctx.C, n Node, into any) {
 	err := Handler{}.Unmarshal(c, n, into)
@@ -163,8 +164,7 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 
 func warnIneff(c ctx.C, f string, args ...any) {
 	msg := fmt.Sprintf(f, args...)
-	if !ineff[msg] {
-		ineff[msg] = true
+	if _, found := ineff.LoadOrStore(msg, true); !found {
 		log.Warnf(c, f, args...)
 	}
 }
-- 
2.43.0


From f643c3794408ee1a69aad7939677818dfa6d4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 06/78] fix: enc: refuse numbers out of range of their target

---
 enc/numeric.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/enc/numeric.go b/enc/numeric.go
index 7e7476d..867757f 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -3,6 +3,7 @@ package enc
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -29,8 +30,13 @@ type Integer int
 var _ Node = Integer(0)
 var _ Numeric = Integer(0)
 
-func (this Integer) Int64() (int64, error)        { return int64(this), nil }
-func (this Integer) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Integer) Int64() (int64, error) { return int64(this), nil }
+func (this Integer) Uint64() (uint64, error) {
+	if this < 0 {
+		return 0, fmt.Errorf("%d out of range for uint64", int64(this))
+	}
+	return uint64(this), nil
+}
 func (this Integer) Float64() (float64, error)    { return float64(this), nil }
 func (this Integer) String() string               { return strconv.FormatInt(int64(this), 10) }
 func (this Integer) GoString() string             { return fmt.Sprintf("enc.Integer{%v}", int64(this)) }
@@ -48,8 +54,18 @@ type Float float64
 var _ Node = Float(0)
 var _ Numeric = Float(0)
 
-func (this Float) Int64() (int64, error)        { return int64(this), nil }
-func (this Float) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Float) Int64() (int64, error) {
+	if !(this >= -1<<63 && this < 1<<63) {
+		return 0, fmt.Errorf("%v out of range for int64", float64(this))
+	}
+	return int64(this), nil
+}
+func (this Float) Uint64() (uint64, error) {
+	if !(this > -1 && this < 1<<64) {
+		return 0, fmt.Errorf("%v out of range for uint64", float64(this))
+	}
+	return uint64(this), nil
+}
 func (this Float) Float64() (float64, error)    { return float64(this), nil }
 func (this Float) String() string               { return strconv.FormatFloat(float64(this), 'g', -1, 64) }
 func (this Float) GoString() string             { return fmt.Sprintf("enc.Float{%v}", float64(this)) }
@@ -77,7 +93,7 @@ func (this Digits) Uint64() (uint64, error) {
 	return i, err
 }
 func trimDecimal(s string) string {
-	if strings.Contains(string(s), ".") {
+	if strings.Contains(string(s), ".") && !strings.ContainsAny(s, "eE") {
 		return strings.Split(s, ".")[0]
 	}
 	return s
@@ -130,6 +146,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.Kind() == reflect.Float32 && math.IsInf(float64(float32(f)), 0) && !math.IsInf(f, 0) {
+			return ctx.NewErrorf(c, "%s %v out of range for %v", handler.path, this, into.Type())
+		}
 		into.SetFloat(f)
 	case reflect.Int,
 		reflect.Int8,
@@ -140,6 +159,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowInt(i) {
+			return ctx.NewErrorf(c, "%s %v out of range for %v", handler.path, this, into.Type())
+		}
 		into.SetInt(int64(i))
 	case reflect.Uint,
 		reflect.Uint8,
@@ -150,6 +172,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowUint(i) {
+			return ctx.NewErrorf(c, "%s %v out of range for %v", handler.path, this, into.Type())
+		}
 		into.SetUint(uint64(i))
 	case reflect.Interface:
 		v := reflect.ValueOf(this.native())
-- 
2.43.0


From 2107e3e6ec570c3d92ba5783a14e3e8e9d0c8392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:33 +0000
Subject: [PATCH 07/78] fix: enc: refuse map keys out of range of the key type

---
 enc/map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/enc/map.go b/enc/map.go
index bb2983f..02a0d6c 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -63,12 +63,18 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to string at %v", k, handler.path.String()+"#key")
 				}
+				if kv.OverflowInt(i) {
+					return ctx.NewErrorf(c, "key %q out of range for %v at %v", k, intokt, handler.path.String()+"#key")
+				}
 				kv.SetInt(i)
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 				i, err := strconv.ParseUint(k, 10, 64)
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to string at %v", k, handler.path.String()+"#key")
 				}
+				if kv.OverflowUint(i) {
+					return ctx.NewErrorf(c, "key %q out of range for %v at %v", k, intokt, handler.path.String()+"#key")
+				}
 				kv.SetUint(i)
 			default:
 				err := handler.Append("#key").unmarshal(c, String(k), kv)
-- 
2.43.0


From 444bf004bc8096bd9779d4a24772614804427a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 08/78] fix: enc: marshalling NaN or Inf is an error

---
 enc/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index 24d4387..4959203 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -210,6 +210,9 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	case reflect.Bool:
 		return Bool(v.Bool()), nil
 	case reflect.Float64, reflect.Float32:
+		if f := v.Float(); math.IsNaN(f) || math.IsInf(f, 0) {
+			return nil, ctx.NewErrorf(c, "can't marshal %v", f)
+		}
 		return Float(v.Float()), nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return Integer(v.Int()), nil
-- 
2.43.0


From b42180a574e6ae416133fd9e11f902028f4bc567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 09/78] fix: enc: marshalling an unsupported kind is an error

---
 enc/handler.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 4959203..8845b4a 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -203,8 +203,7 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	t := v.Type()
 	switch t.Kind() {
 	default:
-		log.Warnf(c, "possible wrong fallback for type %T", in)
-		return fromNative(in), nil
+		return nil, ctx.NewErrorf(c, "can't marshal %T", in)
 	case reflect.Func:
 		return nil, ctx.NewErrorf(c, "can't marshal %T", in)
 	case reflect.Bool:
-- 
2.43.0


From b53ab828c79c8c67e3546b8537705f12bf2f3cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 10/78] fix: enc: nil pointers marshal as null whatever their
 type

---
 enc/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index 8845b4a..1f47f12 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -176,6 +176,9 @@ func Marshal(c ctx.C, in any) (Node, error) {
 
 func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	//log.Warnf(c, "OHA: %T %v", in, in)
+	if v := reflect.ValueOf(in); v.Kind() == reflect.Pointer && v.IsNil() {
+		return Nil{}, nil // never call the methods of a nil pointer
+	}
 	switch in := in.(type) {
 	case nil:
 		return Nil{}, nil
-- 
2.43.0


From 062746d506aecfd402ccdcea755e22bbb93f3bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 11/78] fix: enc: keep the order when marshalling Pairs

---
 enc/handler.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/enc/handler.go b/enc/handler.go
index 1f47f12..8ba9637 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -192,6 +192,28 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 		return String(in.Error()), nil
 	case *ctx.Error:
 		return String(in.Error()), nil
+	case Pairs: // implements json.Marshaler, but decoding that JSON would lose the order
+		out := Pairs{}
+		for _, p := range in {
+			n, err := this.Marshal(c, p.Value)
+			if err != nil {
+				return nil, err
+			}
+			out = append(out, Pair{p.Name, p.JSON, n})
+		}
+		return out, nil
+	case *Pairs:
+		return this.Marshal(c, *in)
+	case Map: // might contain Pairs
+		out := Map{}
+		for k, v := range in {
+			n, err := this.Marshal(c, v)
+			if err != nil {
+				return nil, err
+			}
+			out[k] = n
+		}
+		return out, nil
 	case json.Marshaler:
 		j, err := in.MarshalJSON()
 		if err != nil {
-- 
2.43.0


From fef966e03d28594a34c03091ae1309271d7be1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 12/78] fix: enc: Pairs unmarshal into any by their JSON names

---
 enc/pairs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enc/pairs.go b/enc/pairs.go
index 9534a05..b88016a 100644
--- a/enc/pairs.go
+++ b/enc/pairs.go
@@ -26,7 +26,7 @@ func (this Pairs) AsMap() Map {
 func (this Pairs) native() any {
 	out := map[string]any{}
 	for _, p := range this {
-		out[p.Name] = p.Value.native()
+		out[p.JSON] = p.Value.native()
 	}
 	return out
 }
-- 
2.43.0


From 8f8107a689d8bd1354440341d2189da0e9a13f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:20 +0000
Subject: [PATCH 13/78] fix: enc: convert Time and Duration nodes to the target
 type

---
 enc/time.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/enc/time.go b/enc/time.go
index 5f31a7c..04facdf 100644
--- a/enc/time.go
+++ b/enc/time.go
@@ -58,7 +58,7 @@ func (this *Time) UnmarshalJSON(j []byte) error {
 func (this Time) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	v := reflect.ValueOf(this)
 	if v.CanConvert(into.Type()) {
-		into.Set(v)
+		into.Set(v.Convert(into.Type()))
 		return nil
 	}
 	return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
@@ -87,9 +87,12 @@ func (this Duration) String() string {
 
 func (this Duration) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	v := reflect.ValueOf(this)
-	if v.CanConvert(into.Type()) {
-		into.Set(v)
-		return nil
+	switch into.Kind() {
+	case reflect.Int64, reflect.Interface:
+		if v.CanConvert(into.Type()) {
+			into.Set(v.Convert(into.Type()))
+			return nil
+		}
 	}
 	return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
 }
-- 
2.43.0


From 10a13a052458ba5928c24848fc61b78c3894f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:23 +0000
Subject: [PATCH 14/78] fix: enc: store what a Factory returns

---
 enc/handler.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index 8ba9637..4e981ea 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -129,13 +129,17 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 				return ctx.NewErrorf(c, "factory error: %w", err)
 			}
 			s := reflect.ValueOf(obj)
-			if !s.CanConvert(v.Elem().Type()) {
+			if !s.IsValid() {
+				v.SetZero()
+				return nil
+			}
+			if !s.CanConvert(v.Type()) {
 				return ctx.NewErrorf(c, "Factory %v returned %v which can't be converted to %v",
-					v.Type().Elem(), s.Type(), v.Elem().Type())
+					v.Type(), s.Type(), v.Type())
 			}
 			log.Debugf(c, "Factory %v returned %v which can be converted to %v",
-				v.Type().Elem(), s.Type(), v.Elem().Type())
-			v.Elem().Set(s) // we set the value, not the pointer... because go.reflect
+				v.Type(), s.Type(), v.Type())
+			v.Set(s.Convert(v.Type()))
 			return nil
 		}
 	}
-- 
2.43.0


From 713eb3e4d1074561a46522c589667c27722d8f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 15/78] fix: enc: unmarshalling into an interface with methods
 is an error

---
 enc/enc.go     | 10 ++++++++++
 enc/list.go    |  4 +---
 enc/map.go     |  3 +--
 enc/numeric.go |  3 +--
 enc/scalar.go  |  5 ++---
 5 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/enc/enc.go b/enc/enc.go
index f422593..249300b 100644
--- a/enc/enc.go
+++ b/enc/enc.go
@@ -58,6 +58,16 @@ func (this path) Parent() path {
 	return this
 }
 
+// store the native value of a node into an interface
+func setNative(c ctx.C, handler Handler, n Node, into reflect.Value) error {
+	v := reflect.ValueOf(n.native())
+	if !v.Type().AssignableTo(into.Type()) {
+		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, n, into.Type())
+	}
+	into.Set(v)
+	return nil
+}
+
 // convert json.Unmarshal(&any) to enc.Node
 func fromNative(in any) Node {
 	switch in := in.(type) {
diff --git a/enc/list.go b/enc/list.go
index ef0fe6d..5dc0d3c 100644
--- a/enc/list.go
+++ b/enc/list.go
@@ -40,9 +40,7 @@ func (this List) String() string {
 func (this List) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) error {
 	switch into.Kind() {
 	case reflect.Interface:
-		x := this.native()
-		into.Set(reflect.ValueOf(x))
-		return nil
+		return setNative(c, handler, this, into)
 
 	case reflect.Slice:
 		slice := reflect.MakeSlice(into.Type(), len(this), len(this))
diff --git a/enc/map.go b/enc/map.go
index 02a0d6c..44bb9af 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -128,8 +128,7 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 		if handler.Debugf != nil {
 			handler.Debugf(c, "assign %v to %v", into.Type(), this)
 		}
-		into.Set(reflect.ValueOf(this.native()))
-		return nil
+		return setNative(c, handler, this, into)
 
 	default:
 		return ctx.NewErrorf(c, "can't expand %s %T into %v", handler.path, this, into.Type())
diff --git a/enc/numeric.go b/enc/numeric.go
index 867757f..2fc94b8 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -177,8 +177,7 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		}
 		into.SetUint(uint64(i))
 	case reflect.Interface:
-		v := reflect.ValueOf(this.native())
-		into.Set(v)
+		return setNative(c, handler, this, into)
 	case reflect.String:
 		into.SetString(this.String())
 	default:
diff --git a/enc/scalar.go b/enc/scalar.go
index b997673..8299c37 100644
--- a/enc/scalar.go
+++ b/enc/scalar.go
@@ -29,8 +29,7 @@ func (this String) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) e
 	case reflect.String:
 		into.SetString(string(this))
 	case reflect.Interface:
-		v := reflect.ValueOf(this.native())
-		into.Set(v)
+		return setNative(c, handler, this, into)
 	default:
 		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
 	}
@@ -95,7 +94,7 @@ func (this Bool) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) err
 	case reflect.Bool:
 		into.SetBool(bool(this))
 	case reflect.Interface:
-		into.Set(reflect.ValueOf(bool(this)))
+		return setNative(c, handler, this, into)
 	default:
 		return ctx.NewErrorf(c, "can't unmarshal %s %T into %v", handler.path, this, into.Type())
 	}
-- 
2.43.0


From c596683a82850b7ec222b507ef109d8aa7f3e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:46 +0000
Subject: [PATCH 16/78] fix: openapi: an unsupported type inside another is an
 error

---
 api/openapi/schema.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index a681d0c..b9f6475 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -3,6 +3,7 @@ package openapi
 import (
 	"encoding/json"
 	"fmt"
+	"maps"
 	"reflect"
 	"strconv"
 	"strings"
@@ -39,12 +40,19 @@ func (this *Service) SchemaFromType(c ctx.C, t reflect.Type, tags *reflect.Struc
 		doc = tags.Get("doc")
 		example = strings.TrimSpace(tags.Get("example"))
 	}
+	schemas := maps.Clone(this.Components.Schemas)
 	s, err := this.schemaFromType(c, t, doc, example)
+	if err != nil {
+		this.Components.Schemas = schemas // drop those left incomplete
+	}
 	return s, err
 }
 
 func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string) (s *Schema, err error) {
 	defer func() {
+		if s == nil { // error
+			return
+		}
 		if s.Format == s.Type {
 			s.Format = ""
 		}
-- 
2.43.0


From b6b79ea40c7c2839d50a07faa0a66f4a77f0723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 17/78] fix: openapi: leave out fields which are not marshalled

---
 api/openapi/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index b9f6475..b47e054 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -217,6 +217,9 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			var fields []string
 			for i := 0; i < tt.NumField(); i++ {
 				f := tt.Field(i)
+				if !f.IsExported() || f.Tag.Get("json") == "-" {
+					continue // not on the wire, see enc
+				}
 				s, err := this.schemaFromType(c, f.Type, f.Tag.Get("doc"), strings.TrimSpace(f.Tag.Get("example")))
 				if err != nil {
 					return structSchema, err
-- 
2.43.0


From a752b7cba8a24c0b30e7765cb7163ac64096d03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:54 +0000
Subject: [PATCH 18/78] fix: openapi: custom types may be marshalled to
 negative numbers

---
 api/openapi/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index b47e054..bbcf882 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -110,7 +110,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 					Format:  t.String(),
 					Example: tryDecodingAsBool(c, example),
 				}, nil
-			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.':
+			case '-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.':
 				// It could be either integer or float here, but it's not always possible to determine which
 				// Therefore just setting the type to "number", and doing best effort parsing of the example
 				var ex any
-- 
2.43.0


From d5be80681cf437a2e703d1a9a8eaa6f5b14c0853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:25 +0000
Subject: [PATCH 19/78] fix: api: share unexported state too

---
 api/handler.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/api/handler.go b/api/handler.go
index a2e2234..1076831 100644
--- a/api/handler.go
+++ b/api/handler.go
@@ -15,7 +15,7 @@ type Handler[T any] struct {
 	urls []*url.URL
 
 	auth *field
-	init map[int]reflect.Value
+	init reflect.Value // shared state, copied in each request
 	in   []field
 	out  []field
 }
@@ -36,9 +36,7 @@ func NewClient[T any](c ctx.C, init T) (Client[T], error) {
 func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 	log.Debugf(c, "NewHandler[%T]", init)
 	initV := reflect.ValueOf(init)
-	this := Handler[T]{
-		init: map[int]reflect.Value{},
-	}
+	this := Handler[T]{}
 	if initV.Kind() != reflect.Pointer {
 		return this, ctx.NewErrorf(c, "expected *struct, got %T", init)
 	}
@@ -52,7 +50,8 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 		return this, ctx.NewErrorf(c, "expected *struct, got %T", init)
 	}
 
-	// TODO(oha) use init as initializer
+	this.init = reflect.New(this.typ).Elem()
+	this.init.Set(initV) // as a whole, to include the unexported fields
 	for i := 0; i < this.typ.NumField(); i++ {
 		ft := this.typ.Field(i)
 		tag, err := parseTags(c, ft)
@@ -76,12 +75,8 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 		if tag.url != nil {
 			this.urls = append(this.urls, tag.url)
 		}
-		if !tag.in && !tag.out && tag.url == nil {
-			v := initV.Field(f.i)
-			if !v.IsZero() {
-				this.init[f.i] = v
-				//log.Debugf(c, "init %v.%s = %#v", this.typ, f.tag.name, v)
-			}
+		if (tag.in || tag.out || tag.url != nil) && ft.IsExported() {
+			this.init.Field(f.i).SetZero() // not shared
 		}
 	}
 
@@ -223,10 +218,7 @@ func (this Server[T]) Recv(c ctx.C, req ServerRequest) (T, error) {
 	log.Debugf(c, "Server[%T].Recv(%+v)", zero, req)
 	ptrV := reflect.New(this.typ)
 	v := ptrV.Elem()
-	for i, fv := range this.init {
-		v.Field(i).Set(fv)
-		//log.Debugf(c, "init %T.%v = %#v", this.typ, this.typ.Field(i).Name, fv)
-	}
+	v.Set(this.init)
 	for _, f := range this.in {
 		fv := v.Field(f.i)
 		err := req.Unmarshal(c, f.tag.name, fv)
-- 
2.43.0


From ba2a36fa316e8fd2a0eab0369164d23c2a50e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:24 +0000
Subject: [PATCH 20/78] fix: http: compress when Accept-Encoding asks for it,
 not Accept

---
 http/server.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index f5c4cc0..842ecab 100644
--- a/http/server.go
+++ b/http/server.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"net"
 	"net/http"
+	"strconv"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -230,7 +231,7 @@ func (this *Server) handleRequest(path string, f func(c ctx.C, in []byte, r *htt
 		}
 
 		w.Header().Add("Content-Type", "application/json")
-		if len(out) > 16*1024 && strings.Contains(r.Header.Get("Accept"), "gzip") { // TODO ugly parsing, but good enough for now
+		if len(out) > 16*1024 && acceptsGzip(r) {
 			w.Header().Add("Content-Encoding", "gzip")
 			w2 := gzip.NewWriter(w)
 			_, err = w2.Write(out)
@@ -244,3 +245,29 @@ func (this *Server) handleRequest(path string, f func(c ctx.C, in []byte, r *htt
 		}
 	})
 }
+
+// acceptsGzip returns true if the request's Accept-Encoding lists gzip (or a wildcard), and does not exclude it with a zero weight
+func acceptsGzip(r *http.Request) bool {
+	accepted := false
+	for _, h := range r.Header.Values("Accept-Encoding") {
+		for _, item := range strings.Split(h, ",") {
+			name, params, _ := strings.Cut(item, ";")
+			name = strings.ToLower(strings.TrimSpace(name))
+			if name != "gzip" && name != "*" {
+				continue
+			}
+			weight := 1.0
+			for _, param := range strings.Split(params, ";") {
+				k, v, _ := strings.Cut(param, "=")
+				if strings.EqualFold(strings.TrimSpace(k), "q") {
+					weight, _ = strconv.ParseFloat(strings.TrimSpace(v), 64)
+				}
+			}
+			if name == "gzip" { // takes precedence over the wildcard
+				return weight > 0
+			}
+			accepted = weight > 0
+		}
+	}
+	return accepted
+}
-- 
2.43.0


From b7cc30fa24b70fe25467025dc2bb1ea1f144f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 21/78] fix: http: give each request a tracking id

---
 http/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index 842ecab..6490094 100644
--- a/http/server.go
+++ b/http/server.go
@@ -44,7 +44,7 @@ func NewServer(c ctx.C) *Server {
 	}
 	this.h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
 		t0 := time.Now()
-		c := r.Context()
+		c := ctx.WithTracking(r.Context(), "")
 		c = ctx.WithTag(c, "ua", r.UserAgent())
 		c = ctx.WithTag(c, "path", r.URL.Path)
 
-- 
2.43.0


From 823b3905a1fd24b43600fa50356f94d7a0f7659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:51 +0000
Subject: [PATCH 22/78] fix: http: a malformed API body is the client's error

---
 http/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/api.go b/http/api.go
index 69f2ef4..4631503 100644
--- a/http/api.go
+++ b/http/api.go
@@ -33,7 +33,7 @@ func (s *Server) RegisterAPI(c ctx.C, obj Doable) (*openapi.PathItem, error) {
 		if r.Body != nil {
 			err := req.ReadFrom(c, bytes.NewBuffer(in))
 			if err != nil {
-				return nil, ctx.NewErrorf(c, "can't read request body: %v", err)
+				return nil, NewErrorf(c, 400, "can't read request body: %v", err)
 			}
 			defer r.Body.Close()
 		} else {
-- 
2.43.0


From db73721a9892a030e8f60b4f71fd4b9979dbc1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:17 +0000
Subject: [PATCH 23/78] fix: http: observe each request once, with the status
 it was answered

---
 http/mux.go    | 34 +++++++++-------------------------
 http/server.go |  3 +++
 2 files changed, 12 insertions(+), 25 deletions(-)

diff --git a/http/mux.go b/http/mux.go
index cac7611..e1eb416 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -5,10 +5,8 @@ import (
 	"net"
 	"net/http"
 	"strings"
-	"time"
 
 	"github.com/Aize-Public/forego/api/openapi"
-	"github.com/Aize-Public/forego/ctx"
 	"github.com/Aize-Public/forego/ctx/log"
 	"github.com/Aize-Public/forego/utils"
 )
@@ -18,27 +16,7 @@ func (this *Server) HandleFunc(path string, h http.HandlerFunc) *openapi.Path {
 }
 
 func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
-	this.mux.HandleFunc(path, func(w http.ResponseWriter, r *http.Request) {
-		t0 := time.Now()
-		c := r.Context()
-		c = ctx.WithTag(c, "ua", r.UserAgent())
-		c = ctx.WithTag(c, "path", r.URL.Path)
-
-		w2 := &response{w, 0}
-		switch w := w.(type) {
-		case http.Hijacker:
-			// if there is an hijacker, we need to be a bit clever
-			h.ServeHTTP(responseHijacker{w2, w}, r.WithContext(c))
-		default:
-			h.ServeHTTP(w2, r.WithContext(c))
-		}
-
-		metric{
-			Method: r.Method,
-			Code:   w2.code,
-			Path:   path,
-		}.observe(time.Since(t0))
-	})
+	this.mux.Handle(path, h) // note: the metrics are observed by the server, once for each request
 
 	p := &openapi.Path{}
 	this.OpenAPI.Paths[path] = p
@@ -63,7 +41,9 @@ func (r *response) WriteHeader(code int) {
 		log.Warnf(nil, "duplicate WriteHeader() at %s", strings.Join(stack, "\n"))
 		return
 	}
-	r.code = code
+	if code < 100 || code > 199 || code == http.StatusSwitchingProtocols { // 1xx are informational, the final one has yet to come
+		r.code = code
+	}
 	r.ResponseWriter.WriteHeader(code)
 }
 
@@ -75,5 +55,9 @@ func (r *response) Write(b []byte) (int, error) {
 }
 
 func (r responseHijacker) Hijack() (conn net.Conn, rw *bufio.ReadWriter, err error) {
-	return r.hijacker.Hijack()
+	conn, rw, err = r.hijacker.Hijack()
+	if err == nil && r.code == 0 {
+		r.code = http.StatusSwitchingProtocols
+	}
+	return conn, rw, err
 }
diff --git a/http/server.go b/http/server.go
index 6490094..ba346db 100644
--- a/http/server.go
+++ b/http/server.go
@@ -57,6 +57,9 @@ func NewServer(c ctx.C) *Server {
 			this.mux.ServeHTTP(w2, r.WithContext(c))
 		}
 
+		if w2.code == 0 {
+			w2.code = http.StatusOK // nothing was written, net/http will send a 200
+		}
 		metric{
 			Method: r.Method,
 			Code:   w2.code,
-- 
2.43.0


From 90a9b6fbffdaedc1aa0c2e0d951718fa9e5861f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:30 +0000
Subject: [PATCH 24/78] fix: http: hold the shutdown until in-flight requests
 are done, return Serve errors from Listen

---
 http/server.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/http/server.go b/http/server.go
index ba346db..43370ae 100644
--- a/http/server.go
+++ b/http/server.go
@@ -4,6 +4,7 @@ import (
 	"compress/gzip"
 	"context"
 	"encoding/json"
+	"errors"
 	"io"
 	"net"
 	"net/http"
@@ -121,6 +122,7 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		return nil, err
 	}
 	ch := make(chan error, 1)
+	stopped := make(chan struct{}) // closed when the shutdown of the server is over
 
 	// we start the server in a goroutine
 	go func() {
@@ -136,9 +138,17 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		if err != nil {
 			log.Warnf(c, "listen(%q) %v", addr, err)
 		}
+		if errors.Is(err, http.ErrServerClosed) {
+			<-stopped // Serve() returns at once, but there might still be requests in flight
+		}
+		select {
+		case ch <- err: // if it never got to Accept()
+		default:
+		}
 	}()
 
 	go func() {
+		defer close(stopped)
 		<-shutdown.Started()
 		c, cf := ctx.WithTimeout(c, 30*time.Second)
 		defer cf()
-- 
2.43.0


From 0413a8b7607f2b03797d72f7165b5c6c9b56515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:39 +0000
Subject: [PATCH 25/78] fix: http: the client closes the body of every response

---
 http/client.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/http/client.go b/http/client.go
index e242969..ca4aa4c 100644
--- a/http/client.go
+++ b/http/client.go
@@ -28,11 +28,13 @@ func (this Client) Get(c ctx.C, url string) ([]byte, error) {
 		return nil, ctx.NewErrorf(c, "can't create request: %w", err)
 	}
 	res, err := this.Do(req)
+	if res != nil && res.Body != nil {
+		defer res.Body.Close() // even when the status is an error, or the connection leaks
+	}
 	if err != nil {
 		return nil, err
 	}
 	if res.Body != nil {
-		defer res.Body.Close()
 		return io.ReadAll(res.Body)
 	}
 	return nil, nil
@@ -49,11 +51,13 @@ func (this Client) Post(c ctx.C, url string, body []byte) ([]byte, error) {
 	}
 	req.Header.Set(`Content-Type`, `application/json`)
 	res, err := this.Do(req)
+	if res != nil && res.Body != nil {
+		defer res.Body.Close() // even when the status is an error, or the connection leaks
+	}
 	if err != nil {
 		return nil, err
 	}
 	if res.Body != nil {
-		defer res.Body.Close()
 		return io.ReadAll(res.Body)
 	}
 	return nil, nil
@@ -104,6 +108,9 @@ func (this Client) API(c ctx.C, obj Doable) error {
 
 		log.Debugf(c, "client[%T].Send() %s", obj, j)
 		res, err := this.Do(req)
+		if res != nil && res.Body != nil {
+			defer res.Body.Close()
+		}
 		if err != nil {
 			return ctx.NewErrorf(c, "can't send request: %w", err)
 		}
@@ -116,7 +123,6 @@ func (this Client) API(c ctx.C, obj Doable) error {
 			if err != nil {
 				return ctx.NewErrorf(c, "can't read response: %w", err)
 			}
-			res.Body.Close()
 			log.Debugf(c, "client[%T].Recv() %s", obj, j)
 			return h.Recv(c, data, obj)
 		default:
-- 
2.43.0


From 9a367834d8df64336da72808cc073f3a0ba75fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:49 +0000
Subject: [PATCH 26/78] fix: http: calling an API without url is an error

---
 http/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/client.go b/http/client.go
index ca4aa4c..44c9de8 100644
--- a/http/client.go
+++ b/http/client.go
@@ -94,6 +94,9 @@ func (this Client) API(c ctx.C, obj Doable) error {
 		}
 
 		u := h.URL()
+		if u == nil {
+			return ctx.NewErrorf(c, "no URL for %T", obj)
+		}
 		if this.BaseUrl != nil {
 			u, err = this.BaseUrl.Parse(u.String())
 			if err != nil {
-- 
2.43.0


From 0536e3409f5ba5eb6a42c59d27345800c7e1b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:18 +0000
Subject: [PATCH 27/78] fix: utils: ReadAll keeps the data which comes with an
 error, and does not race when cancelled

---
 utils/io.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index c822cb1..ec16174 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"bytes"
 	"io"
+	"sync"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -11,6 +12,7 @@ import (
 // Note: it uses an internal go-routine, which will block on read
 // If the close function is passed, it will be called when read is exhausted.
 func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
+	var m sync.Mutex // the go-routine might still be reading when we return
 	out := bytes.Buffer{}
 	ch := make(chan error, 1)
 	if close != nil {
@@ -21,17 +23,21 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 		buf := make([]byte, 8192)
 		for c.Err() == nil {
 			ct, err := r.Read(buf)
+			m.Lock()
+			_, _ = out.Write(buf[0:ct]) // note: there can be data even if there is an error
+			m.Unlock()
 			if err != nil {
 				ch <- err
 				return
 			}
-			_, _ = out.Write(buf[0:ct])
 			//log.Printf("read %d bytes...", ct)
 		}
 	}()
 	select {
 	case <-c.Done():
-		return out.Bytes(), ctx.NewErrorf(c, "timeout: %w", c.Err())
+		m.Lock()
+		defer m.Unlock()
+		return bytes.Clone(out.Bytes()), ctx.NewErrorf(c, "timeout: %w", c.Err())
 	case err := <-ch:
 		if err == io.EOF {
 			return out.Bytes(), nil
-- 
2.43.0


From ea92e9052f29f79db5fe21d5f1576cb51e73de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:34 +0000
Subject: [PATCH 28/78] fix: http: enforce CallHandler.MaxLength

---
 http/call.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/http/call.go b/http/call.go
index adbc369..8eedbdb 100644
--- a/http/call.go
+++ b/http/call.go
@@ -2,6 +2,7 @@ package http
 
 import (
 	"bytes"
+	"errors"
 	"net/http"
 	"time"
 
@@ -24,6 +25,13 @@ func (this CallHandler) readTimeout() time.Duration {
 	return 30 * time.Second
 }
 
+func (this CallHandler) maxLength() int64 {
+	if this.MaxLength > 0 {
+		return int64(this.MaxLength)
+	}
+	return 1024 * 1024
+}
+
 func (this CallHandler) Register(s *Server) {
 	s.mux.HandleFunc(this.Path, func(w http.ResponseWriter, r *http.Request) {
 		c := r.Context()
@@ -36,7 +44,11 @@ func (this CallHandler) Register(s *Server) {
 			}
 			var err error
 			if r.Body != nil {
-				call.reqBody, err = utils.ReadAll(c, r.Body, r.Body.Close)
+				body := http.MaxBytesReader(w, r.Body, this.maxLength())
+				call.reqBody, err = utils.ReadAll(c, body, body.Close)
+				if tooLarge := (*http.MaxBytesError)(nil); errors.As(err, &tooLarge) {
+					return nil, NewErrorf(c, 413, "can't read body: %w", err)
+				}
 				if err != nil {
 					return nil, NewErrorf(c, 400, "can't read body: %w", err)
 				}
-- 
2.43.0


From 6e34182ba0929e4d49980b1bee3d6ac7a9a8cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 29/78] fix: http: CallHandler.ReadTimeout interrupts a stalled
 read

---
 http/call.go | 4 ++++
 http/mux.go  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/http/call.go b/http/call.go
index 8eedbdb..26a8768 100644
--- a/http/call.go
+++ b/http/call.go
@@ -44,6 +44,9 @@ func (this CallHandler) Register(s *Server) {
 			}
 			var err error
 			if r.Body != nil {
+				// a stalled Read() would otherwise also block Close() and the response
+				rc := http.NewResponseController(w)
+				_ = rc.SetReadDeadline(time.Now().Add(this.readTimeout()))
 				body := http.MaxBytesReader(w, r.Body, this.maxLength())
 				call.reqBody, err = utils.ReadAll(c, body, body.Close)
 				if tooLarge := (*http.MaxBytesError)(nil); errors.As(err, &tooLarge) {
@@ -52,6 +55,7 @@ func (this CallHandler) Register(s *Server) {
 				if err != nil {
 					return nil, NewErrorf(c, 400, "can't read body: %w", err)
 				}
+				_ = rc.SetReadDeadline(time.Time{})
 			}
 			err = this.Handler(c, &call)
 			return call.res.Bytes(), err
diff --git a/http/mux.go b/http/mux.go
index e1eb416..fce2e7b 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -54,6 +54,11 @@ func (r *response) Write(b []byte) (int, error) {
 	return r.ResponseWriter.Write(b)
 }
 
+// used by http.ResponseController
+func (r *response) Unwrap() http.ResponseWriter {
+	return r.ResponseWriter
+}
+
 func (r responseHijacker) Hijack() (conn net.Conn, rw *bufio.ReadWriter, err error) {
 	conn, rw, err = r.hijacker.Hijack()
 	if err == nil && r.code == 0 {
-- 
2.43.0


From a932b83d193771234a8e3542a378b22d761e4c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 30/78] fix: ws: control frames and fragments do not crash the
 process

---
 http/ws/ws.go | 120 ++++++++++++++++++++++++++++----------------------
 1 file changed, 68 insertions(+), 52 deletions(-)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index 8b18d60..bf3fbae 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -1,7 +1,6 @@
 package ws
 
 import (
-	"fmt"
 	"io"
 	"sync"
 
@@ -20,6 +19,9 @@ const ( // https://www.rfc-editor.org/rfc/rfc6455#section-7.4.1
 	UNEXP_COND    int = 1011
 )
 
+// control frames can't be bigger than this, see https://www.rfc-editor.org/rfc/rfc6455#section-5.5
+const maxControlPayload = 125
+
 // low level websocket implementation
 type impl interface {
 	enc.ReadWriter
@@ -38,15 +40,14 @@ var _ impl = &wsImpl{}
 
 func (this *wsImpl) Write(c ctx.C, n enc.Node) error {
 	j := enc.JSON{}.Encode(c, n)
-	this.m.Lock()
-	defer this.m.Unlock()
 	//log.Debugf(c, "ws.write: %s", j)
-	return this.write(c, j)
+	return this.writeFrame(c, websocket.TextFrame, j)
 }
 
-// note this is not safe for multiple go routines
-func (this *wsImpl) write(c ctx.C, data []byte) error {
-	w, err := this.conn.NewFrameWriter(websocket.TextFrame)
+func (this *wsImpl) writeFrame(c ctx.C, payloadType byte, data []byte) error {
+	this.m.Lock()
+	defer this.m.Unlock()
+	w, err := this.conn.NewFrameWriter(payloadType)
 	if err != nil {
 		return ctx.WrapError(c, err)
 	}
@@ -69,55 +70,70 @@ func (this *wsImpl) Read(c ctx.C) (enc.Node, error) {
 	return enc.JSON{}.Decode(c, j)
 }
 
+// read a whole message, joining its fragments, and answering to any control frame found on the way
 func (this *wsImpl) read(c ctx.C) ([]byte, error) {
-	r, err := this.conn.NewFrameReader()
-	if err != nil {
-		return nil, err
-	}
-	hr := r.HeaderReader()
-	if hr != nil {
-		//d, _ := io.ReadAll(hr)
-		//log.Debugf(c, "ws head: %x (%q)", d, d)
-		_, _ = io.Copy(io.Discard, hr) // we don't care
-	}
-	if c.Err() != nil {
-		return nil, ctx.WrapError(c, c.Err())
-	}
+	var data []byte
+	for fragments := 0; ; fragments++ {
+		r, err := this.conn.NewFrameReader()
+		if err != nil {
+			return nil, err
+		}
+		var header []byte
+		if hr := r.HeaderReader(); hr != nil {
+			header, err = io.ReadAll(hr)
+			if err != nil {
+				return nil, ctx.WrapError(c, err)
+			}
+		}
+		if c.Err() != nil {
+			return nil, ctx.WrapError(c, c.Err())
+		}
 
-	switch r.PayloadType() {
-	case websocket.ContinuationFrame:
-		return nil, ctx.NewErrorf(c, "unsupported continuation")
-	case websocket.TextFrame, websocket.BinaryFrame:
-	case websocket.CloseFrame:
-		// TODO read message and debug?
-		return nil, ctx.WrapError(c, io.EOF)
-	case websocket.PingFrame, websocket.PongFrame:
-		panic("unsupported ping-pong")
-		/*
-			            // TODO implements this
-						b := make([]byte, maxControlFramePayloadLength)
-						n, err := io.ReadFull(frame, b)
-						if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
-							return nil, err
-						}
-						io.Copy(ioutil.Discard, frame)
-						if frame.PayloadType() == PingFrame {
-							if _, err := handler.WritePong(b[:n]); err != nil {
-								return nil, err
-							}
-						}
-						return nil, nil
-		*/
-	default:
-		panic(fmt.Sprintf("unexpected type %b", r.PayloadType()))
-	}
+		size := r.Len() - len(header)
+		switch r.PayloadType() {
+		case websocket.ContinuationFrame:
+			if fragments == 0 {
+				return nil, ctx.NewErrorf(c, "unexpected continuation")
+			}
+		case websocket.TextFrame, websocket.BinaryFrame:
+			if fragments > 0 {
+				return nil, ctx.NewErrorf(c, "expected a continuation")
+			}
+		case websocket.CloseFrame:
+			// TODO read message and debug?
+			return nil, ctx.WrapError(c, io.EOF)
+		case websocket.PingFrame, websocket.PongFrame:
+			if size > maxControlPayload {
+				return nil, ctx.NewErrorf(c, "control frame of %d bytes", size)
+			}
+		default:
+			return nil, ctx.NewErrorf(c, "unexpected type %x", r.PayloadType())
+		}
 
-	data, err := io.ReadAll(r)
-	if err != nil {
-		return nil, ctx.WrapError(c, err)
+		payload, err := io.ReadAll(r)
+		if err != nil {
+			return nil, ctx.WrapError(c, err)
+		}
+		if len(payload) != size {
+			return nil, ctx.WrapError(c, io.ErrUnexpectedEOF)
+		}
+		switch r.PayloadType() {
+		case websocket.PingFrame:
+			err = this.writeFrame(c, websocket.PongFrame, payload)
+			if err != nil {
+				return nil, err
+			}
+			fallthrough
+		case websocket.PongFrame:
+			fragments-- // can be in between the fragments of a message
+			continue
+		}
+		data = append(data, payload...)
+		if len(header) == 0 || header[0]&0x80 != 0 { // FIN bit
+			log.Debugf(c, "ws recv: %s", data)
+			return data, nil
+		}
 	}
-	log.Debugf(c, "ws recv: %s", data)
-	return data, nil
 }
 
 func (this *wsImpl) Close(c ctx.C, status int) error {
-- 
2.43.0


From 7cb95a4efd699c809926a11cff5393f6fa96d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:40 +0000
Subject: [PATCH 31/78] fix: ws: Close does not interleave with a pending write

---
 http/ws/ws.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index bf3fbae..e73cbc2 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -3,6 +3,7 @@ package ws
 import (
 	"io"
 	"sync"
+	"time"
 
 	"github.com/Aize-Public/forego/ctx"
 	"github.com/Aize-Public/forego/ctx/log"
@@ -22,6 +23,9 @@ const ( // https://www.rfc-editor.org/rfc/rfc6455#section-7.4.1
 // control frames can't be bigger than this, see https://www.rfc-editor.org/rfc/rfc6455#section-5.5
 const maxControlPayload = 125
 
+// how long to wait for pending writes when closing
+const closeTimeout = 5 * time.Second
+
 // low level websocket implementation
 type impl interface {
 	enc.ReadWriter
@@ -137,8 +141,13 @@ func (this *wsImpl) read(c ctx.C) ([]byte, error) {
 }
 
 func (this *wsImpl) Close(c ctx.C, status int) error {
+	// a peer which does not read anymore can't block us forever
+	_ = this.conn.SetWriteDeadline(time.Now().Add(closeTimeout))
+	this.m.Lock()
+	defer this.m.Unlock()
 	err := this.conn.WriteClose(status)
 	if err != nil {
+		_ = this.conn.Close()
 		return err
 	}
 	return this.conn.Close()
-- 
2.43.0


From 1a69b56ac7f0a8e1984cc2cd5b57e3ce2b082363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 32/78] fix: ws: sending what can't be marshalled is an error

---
 http/ws/channel.go | 6 +++++-
 http/ws/conn.go    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/http/ws/channel.go b/http/ws/channel.go
index 27ff6da..a239b1e 100644
--- a/http/ws/channel.go
+++ b/http/ws/channel.go
@@ -77,10 +77,14 @@ type C struct {
 }
 
 func (c C) Reply(path string, obj any) error {
+	data, err := enc.Marshal(c, obj)
+	if err != nil {
+		return err
+	}
 	return c.ch.Conn.Send(c, Frame{
 		Channel: c.ch.ID,
 		Path:    path,
-		Data:    enc.MustMarshal(c, obj),
+		Data:    data,
 	})
 }
 
diff --git a/http/ws/conn.go b/http/ws/conn.go
index 58536d6..65eddfa 100644
--- a/http/ws/conn.go
+++ b/http/ws/conn.go
@@ -70,5 +70,9 @@ func (this *Conn) Loop(c ctx.C) error {
 }
 
 func (this *Conn) Send(c ctx.C, obj any) error {
-	return this.ws.Write(c, enc.MustMarshal(c, obj))
+	n, err := enc.Marshal(c, obj)
+	if err != nil {
+		return err
+	}
+	return this.ws.Write(c, n)
 }
-- 
2.43.0


From 15c07f94bb99963e7db6bf8b738b036279a2eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 33/78] fix: ws: a close frame closes its channel, not the
 connection

---
 http/ws/rpc.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/http/ws/rpc.go b/http/ws/rpc.go
index 4ccb874..26658f8 100644
--- a/http/ws/rpc.go
+++ b/http/ws/rpc.go
@@ -42,6 +42,12 @@ func (this *RpcConn) onFrame(c ctx.C, f Frame) error {
 
 	switch f.Type {
 	case "close":
+		if f.Channel != "" {
+			if ch := this.byChan.Get(f.Channel); ch != nil {
+				return ch.Close(c)
+			}
+			return nil // already closed
+		}
 		// WAIT FOR STUFF?
 		return this.Close(c, 1000)
 	case "new", "open":
-- 
2.43.0


From 3c8dfe9729c82cacc43515747bf340a729aab72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 34/78] fix: ws: return and disconnect frames carry the error
 text

---
 http/ws/conn.go    | 2 +-
 http/ws/reflect.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/http/ws/conn.go b/http/ws/conn.go
index 65eddfa..f833bac 100644
--- a/http/ws/conn.go
+++ b/http/ws/conn.go
@@ -61,7 +61,7 @@ func (this *Conn) Loop(c ctx.C) error {
 			if err != nil {
 				this.Send(c, Frame{
 					Type: "disconnect",
-					Data: enc.MustMarshal(c, err),
+					Data: enc.String(err.Error()),
 				})
 				return ctx.NewErrorf(c, "closing: %v", err)
 			}
diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 7f149f6..0c5071e 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -45,7 +45,7 @@ func (this builder) build(c C, req enc.Node) any {
 					Channel: c.ch.ID,
 					Path:    method.name,
 					Type:    "return",
-					Data:    enc.MustMarshal(c, err),
+					Data:    enc.String(err.Error()),
 				})
 				return ctx.NewErrorf(c, "ws[%s|%s]: %v", c.ch.ID, method.name, err)
 			}
-- 
2.43.0


From 2e5847408beb92b7ca46a80831cecb1aeb59b254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:26 +0000
Subject: [PATCH 35/78] fix: ws: report a failing Init

---
 http/ws/handler.go | 11 ++++++++++-
 http/ws/reflect.go |  6 +++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/http/ws/handler.go b/http/ws/handler.go
index 195c46d..a4b0498 100644
--- a/http/ws/handler.go
+++ b/http/ws/handler.go
@@ -125,10 +125,19 @@ func (this *RpcHandler) Register(c ctx.C, obj any) error {
 			ID:     f.Channel,
 		}
 		conn.byChan.Store(ch.ID, ch)
-		obj := b.build(C{
+		obj, err := b.build(C{
 			C:  c,
 			ch: ch,
 		}, f.Data)
+		if err != nil {
+			log.Warnf(c, "can't open channel %q: %v", ch.ID, err)
+			conn.byChan.Delete(ch.ID)
+			return conn.Send(c, Frame{
+				Channel: ch.ID,
+				Type:    "error",
+				Data:    enc.String(err.Error()),
+			})
+		}
 		log.Debugf(c, "new %+v", obj)
 		return nil
 	})
diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 0c5071e..f8583a2 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -20,7 +20,7 @@ type builder struct {
 }
 
 // init a new object, and bind it's methods to the channel
-func (this builder) build(c C, req enc.Node) any {
+func (this builder) build(c C, req enc.Node) (any, error) {
 	v := reflect.New(this.structType)
 	for _, c := range this.fields {
 		//log.Debugf(nil, "set %v", c.value)
@@ -30,7 +30,7 @@ func (this builder) build(c C, req enc.Node) any {
 	if this.constructor.methodName != "" {
 		err := this.constructor.call(c, v, req)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 
@@ -58,7 +58,7 @@ func (this builder) build(c C, req enc.Node) any {
 		}
 	}
 
-	return v.Interface()
+	return v.Interface(), nil
 }
 
 type method struct {
-- 
2.43.0


From a3ecc31853d3bf3c9f89a7a6ceb83f14510085c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:49 +0000
Subject: [PATCH 36/78] fix: ws: register an object passed by value, refuse
 what is not an object

---
 http/ws/reflect.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index f8583a2..5e02e03 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -105,10 +105,15 @@ func (this *builder) inspect(c ctx.C, obj any) error {
 	switch origVal.Kind() {
 	case reflect.Pointer:
 	case reflect.Struct:
-		origVal = origVal.Addr() // make sure it's a pointer
+		ptr := reflect.New(origVal.Type()) // make sure it's a pointer
+		ptr.Elem().Set(origVal)
+		origVal = ptr
 	default:
 		return ctx.NewErrorf(c, "expected struct or *struct, got %T", obj)
 	}
+	if origVal.IsNil() || origVal.Elem().Kind() != reflect.Struct {
+		return ctx.NewErrorf(c, "expected struct or *struct, got %T", obj)
+	}
 	this.structType = origVal.Type().Elem()
 	ptrType := origVal.Type()
 
-- 
2.43.0


From f4f6ba0703d0a7eda1f2c699a96ba1e8e22b6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 37/78] fix: ws: only exported fields are copied to new objects

---
 http/ws/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 5e02e03..d80860e 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -124,7 +124,7 @@ func (this *builder) inspect(c ctx.C, obj any) error {
 	for i := 0; i < origVal.Elem().NumField(); i++ {
 		i := i
 		fv := origVal.Elem().Field(i)
-		if !fv.IsZero() {
+		if this.structType.Field(i).IsExported() && !fv.IsZero() {
 			this.fields = append(this.fields, fieldInit{
 				index: i,
 				value: fv,
-- 
2.43.0


From 52bb9ae4979d50b347f1a01b529acee6ca9d5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 38/78] fix: ws: the test client pairs each call with its own
 outcome

---
 http/ws/test.go | 165 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 140 insertions(+), 25 deletions(-)

diff --git a/http/ws/test.go b/http/ws/test.go
index 565a8f0..c64efb0 100644
--- a/http/ws/test.go
+++ b/http/ws/test.go
@@ -2,6 +2,7 @@ package ws
 
 import (
 	"io"
+	"sync"
 
 	"github.com/Aize-Public/forego/ctx"
 	"github.com/Aize-Public/forego/ctx/log"
@@ -15,18 +16,41 @@ type TestClient struct {
 }
 
 type testWS struct {
+	m      sync.Mutex
 	byChan map[string]func(ctx.C, Frame) error
 	inbox  chan Frame
-	closed bool
+	closed chan struct{}
+	once   sync.Once
 }
 
 var _ impl = &testWS{}
 
 func (this *testWS) Close(c ctx.C, reason int) error {
-	this.closed = true
+	this.once.Do(func() { close(this.closed) })
 	return nil
 }
 
+func (this *testWS) isClosed() bool {
+	select {
+	case <-this.closed:
+		return true
+	default:
+		return false
+	}
+}
+
+func (this *testWS) setChan(id string, h func(ctx.C, Frame) error) {
+	this.m.Lock()
+	defer this.m.Unlock()
+	this.byChan[id] = h
+}
+
+func (this *testWS) getChan(id string) func(ctx.C, Frame) error {
+	this.m.Lock()
+	defer this.m.Unlock()
+	return this.byChan[id]
+}
+
 func (this *testWS) Read(c ctx.C) (enc.Node, error) {
 	select {
 	case f, ok := <-this.inbox:
@@ -35,13 +59,15 @@ func (this *testWS) Read(c ctx.C) (enc.Node, error) {
 		}
 		log.Debugf(c, "%T.read() %+v", this, f)
 		return enc.Marshal(c, f)
+	case <-this.closed:
+		return nil, io.EOF
 	case <-c.Done():
 		return nil, c.Err()
 	}
 }
 
 func (this *testWS) Write(c ctx.C, n enc.Node) error {
-	if this.closed {
+	if this.isClosed() {
 		return io.ErrClosedPipe
 	}
 	var f Frame
@@ -49,7 +75,7 @@ func (this *testWS) Write(c ctx.C, n enc.Node) error {
 		return ctx.WrapError(c, err)
 	}
 
-	h := this.byChan[f.Channel]
+	h := this.getChan(f.Channel)
 	if h == nil {
 		return ctx.NewErrorf(c, "unknown channel %q", f.Channel)
 	}
@@ -61,6 +87,7 @@ func (this *RpcHandler) NewTest(c ctx.C) *TestClient {
 	ws := &testWS{
 		byChan: map[string]func(ctx.C, Frame) error{},
 		inbox:  make(chan Frame, 10),
+		closed: make(chan struct{}),
 	}
 	conn := this.newRpcConn(ws)
 	go conn.Loop(c) // nolint
@@ -76,6 +103,8 @@ func (this *TestClient) Send(c ctx.C, f Frame) error {
 	case this.ws.inbox <- f:
 		log.Debugf(c, "%T.send() %+v", this, f)
 		return nil
+	case <-this.ws.closed:
+		return io.ErrClosedPipe
 	case <-c.Done():
 		return c.Err()
 	}
@@ -91,33 +120,30 @@ func (this *TestClient) Close(c ctx.C) error {
 // 3. the callback onData returns an error
 func (this *TestClient) Open(c ctx.C, path string, data any, onData func(ctx.C, Frame) error) (call func(ctx.C, string, any) error, err error) {
 	chID := uuid.NewString()
-	ech := make(chan error, 1)
-	this.ws.byChan[chID] = func(c ctx.C, f Frame) error {
+	calls := &testCalls{}
+	this.ws.setChan(chID, func(c ctx.C, f Frame) error {
+		cbErr := onData(c, f)
 		switch f.Type {
-		case "return", "error":
+		case "return":
 			var err error
 			if f.Data != nil {
 				err = ctx.NewErrorf(c, "remote: %s", f.Data)
 			}
-			select {
-			case ech <- err:
-			default:
-			}
-		}
-		err := onData(c, f)
-		if err != nil {
-			select {
-			case ech <- err:
-			default:
-			}
+			calls.returned(err, cbErr)
+		case "error":
+			calls.failed(ctx.NewErrorf(c, "remote: %s", f.Data), cbErr)
+		default:
+			calls.callback(cbErr)
 		}
 		return nil
-	}
+	})
 	return func(c ctx.C, path string, data any) error {
-			err := this.Send(c, Frame{
-				Channel: chID,
-				Path:    path,
-				Data:    enc.MustMarshal(c, data),
+			ech, err := calls.start(func() error {
+				return this.Send(c, Frame{
+					Channel: chID,
+					Path:    path,
+					Data:    enc.MustMarshal(c, data),
+				})
 			})
 			if err != nil {
 				return err
@@ -127,6 +153,13 @@ func (this *TestClient) Open(c ctx.C, path string, data any, onData func(ctx.C,
 				return err
 			case <-c.Done():
 				return c.Err()
+			case <-this.ws.closed:
+				select {
+				case err := <-ech: // it was done before
+					return err
+				default:
+					return io.ErrClosedPipe
+				}
 			}
 		}, this.Send(c, Frame{
 			Type:    "open",
@@ -136,6 +169,88 @@ func (this *TestClient) Open(c ctx.C, path string, data any, onData func(ctx.C,
 		})
 }
 
+// pairs each call on a channel to its outcome: calls are processed in the order they are sent
+type testCalls struct {
+	sending sync.Mutex // keeps the order of pending the same as the order of sending
+
+	m       sync.Mutex
+	pending []chan error
+	broken  error // the channel could not be opened
+	failing bool  // the last call returned an error, which is also sent as an "error"
+}
+
+func (this *testCalls) start(send func() error) (<-chan error, error) {
+	this.sending.Lock()
+	defer this.sending.Unlock()
+	ech := make(chan error, 1)
+	this.m.Lock()
+	if err := this.broken; err != nil {
+		this.m.Unlock()
+		return nil, err
+	}
+	this.pending = append(this.pending, ech)
+	this.m.Unlock()
+	err := send()
+	if err != nil { // never sent: it is still the last
+		this.m.Lock()
+		defer this.m.Unlock()
+		if ct := len(this.pending); ct > 0 && this.pending[ct-1] == ech {
+			this.pending = this.pending[:ct-1]
+		}
+		return nil, err
+	}
+	return ech, nil
+}
+
+// the oldest pending call is over
+func (this *testCalls) returned(err, cbErr error) {
+	this.m.Lock()
+	defer this.m.Unlock()
+	this.failing = err != nil
+	if err == nil {
+		err = cbErr
+	}
+	if len(this.pending) > 0 {
+		resolve(this.pending[0], err)
+		this.pending = this.pending[1:]
+	}
+}
+
+// an error which does not belong to a call means the channel is not usable
+func (this *testCalls) failed(err, cbErr error) {
+	this.m.Lock()
+	defer this.m.Unlock()
+	if this.failing {
+		this.failing = false
+		return
+	}
+	this.broken = err
+	for _, ech := range this.pending {
+		resolve(ech, err)
+	}
+	this.pending = nil
+}
+
+// the callback refused a frame, the call in progress does not wait for its return
+func (this *testCalls) callback(cbErr error) {
+	if cbErr == nil {
+		return
+	}
+	this.m.Lock()
+	defer this.m.Unlock()
+	if len(this.pending) > 0 {
+		resolve(this.pending[0], cbErr)
+	}
+}
+
+// only the first outcome counts
+func resolve(ech chan error, err error) {
+	select {
+	case ech <- err:
+	default:
+	}
+}
+
 // experimental
 // open a channel, and return a ws.C for that channel and a inbox where all the responses will be added to
 func (this *TestClient) NewContext(c ctx.C, size int) (C, <-chan Frame) {
@@ -144,14 +259,14 @@ func (this *TestClient) NewContext(c ctx.C, size int) (C, <-chan Frame) {
 		Conn: this.conn,
 		ID:   uuid.NewString(),
 	}
-	this.ws.byChan[ch.ID] = func(c ctx.C, f Frame) error {
+	this.ws.setChan(ch.ID, func(c ctx.C, f Frame) error {
 		select {
 		case outbox <- f:
 			return nil
 		case <-c.Done():
 			return c.Err()
 		}
-	}
+	})
 	return C{
 		C:  c,
 		ch: &ch,
-- 
2.43.0


From 16ba091751e9cd194333b5759ca80c3302524790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 39/78] fix: shutdown: holds may come and go while others wait
 for completion

---
 shutdown/shutdown.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/shutdown/shutdown.go b/shutdown/shutdown.go
index 2aab1ac..1bb499b 100644
--- a/shutdown/shutdown.go
+++ b/shutdown/shutdown.go
@@ -19,7 +19,9 @@ type shutter struct {
 	ch5  chan struct{}
 	once sync.Once
 	// active services holding the shutdown to complete
-	wg sync.WaitGroup
+	m       sync.Mutex
+	holds   int
+	waiting []chan struct{} // closed once there are no holds
 }
 
 var shutdowner = newShutter()
@@ -54,25 +56,45 @@ func (this *shutter) started5Sec() <-chan struct{} {
 
 // returns a channel that will close when the shutdown has completed
 func (this *shutter) done() <-chan struct{} {
+	this.m.Lock()
+	defer this.m.Unlock()
 	ch := make(chan struct{})
-	go func() {
-		this.wg.Wait()
+	if this.holds == 0 {
 		close(ch)
-	}()
+	} else {
+		this.waiting = append(this.waiting, ch)
+	}
 	return ch
 }
 
 // prevent the shutdown to complete until released
 func (this *shutter) hold() ReleaseFn {
-	this.wg.Add(1)
-	return this.wg.Done
+	this.m.Lock()
+	defer this.m.Unlock()
+	this.holds++
+	return this.release
+}
+
+func (this *shutter) release() {
+	this.m.Lock()
+	defer this.m.Unlock()
+	if this.holds == 0 {
+		panic("shutdown: released more than held")
+	}
+	this.holds--
+	if this.holds == 0 {
+		for _, ch := range this.waiting {
+			close(ch)
+		}
+		this.waiting = nil
+	}
 }
 
 // prevents the shutdown to complete until released, and also wait for the shutdown to start
 func (this *shutter) holdAndWait() ReleaseFn {
-	this.wg.Add(1)
+	release := this.hold()
 	<-this.ch
-	return this.wg.Done
+	return release
 }
 
 // setup signals and wait for the shutdown to complete
-- 
2.43.0


From 79d4a5be27dbe4a5820b946c328f4633eefa5dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:19 +0000
Subject: [PATCH 40/78] fix: storage: filters compare values, not their go
 syntax

---
 storage/keyvalue.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/storage/keyvalue.go b/storage/keyvalue.go
index 9fc0d51..0d50ae3 100644
--- a/storage/keyvalue.go
+++ b/storage/keyvalue.go
@@ -1,6 +1,8 @@
 package storage
 
 import (
+	"bytes"
+	"encoding/json"
 	"sync"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -100,13 +102,31 @@ func (this Filter) Check(c ctx.C, val enc.Map) (bool, error) {
 	if v == nil {
 		v = enc.Nil{}
 	}
-	log.Debugf(c, "Check(%q %q %v)", v, this.Cmp, this.Val)
+	expect := this.Val
+	if expect == nil {
+		expect = enc.Nil{}
+	}
+	log.Debugf(c, "Check(%q %q %v)", v, this.Cmp, expect)
 	switch this.Cmp {
 	case Equal:
-		return v.GoString() == this.Val.GoString(), nil
+		return same(c, v, expect)
 	case NotEqual:
-		return v.GoString() != this.Val.GoString(), nil
+		ok, err := same(c, v, expect)
+		return !ok && err == nil, err
 	default:
 		return false, ctx.NewErrorf(c, "unsupported cmp operator: %q", this.Cmp)
 	}
 }
+
+// compares the json values, independently of the node types used to hold them
+func same(c ctx.C, a, b enc.Node) (bool, error) {
+	ja, err := json.Marshal(a)
+	if err != nil {
+		return false, ctx.NewErrorf(c, "can't compare %v: %w", a, err)
+	}
+	jb, err := json.Marshal(b)
+	if err != nil {
+		return false, ctx.NewErrorf(c, "can't compare %v: %w", b, err)
+	}
+	return bytes.Equal(ja, jb), nil
+}
-- 
2.43.0


From 441645bab776937cff289a264e20be52caf95d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 41/78] fix: storage: stored values are not shared with the
 caller

---
 storage/keyvalue.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/storage/keyvalue.go b/storage/keyvalue.go
index 0d50ae3..8aced71 100644
--- a/storage/keyvalue.go
+++ b/storage/keyvalue.go
@@ -35,10 +35,11 @@ func (this *memKeyValue) Get(c ctx.C, key string) (enc.Map, error) {
 	this.m.Lock()
 	defer this.m.Unlock()
 	v := this.data[key]
-	return v, nil
+	return clone(v).(enc.Map), nil
 }
 
 func (this *memKeyValue) Upsert(c ctx.C, key string, val enc.Map) error {
+	val = clone(val).(enc.Map)
 	this.m.Lock()
 	defer this.m.Unlock()
 	this.data[key] = val
@@ -68,7 +69,7 @@ func (this *memKeyValue) Range(c ctx.C, f func(c ctx.C, key string, val enc.Map)
 			}
 			log.Debugf(c, "prep %q is %v", k, ok)
 			if ok {
-				list = append(list, pair{k, v})
+				list = append(list, pair{k, clone(v).(enc.Map)})
 			}
 		}
 		return nil
@@ -87,6 +88,42 @@ func (this *memKeyValue) Range(c ctx.C, f func(c ctx.C, key string, val enc.Map)
 	return nil
 }
 
+// what is stored is never shared with the caller
+func clone(n enc.Node) enc.Node {
+	switch n := n.(type) {
+	case enc.Map:
+		if n == nil {
+			return n
+		}
+		out := make(enc.Map, len(n))
+		for k, v := range n {
+			out[k] = clone(v)
+		}
+		return out
+	case enc.List:
+		if n == nil {
+			return n
+		}
+		out := make(enc.List, len(n))
+		for i, v := range n {
+			out[i] = clone(v)
+		}
+		return out
+	case enc.Pairs:
+		if n == nil {
+			return n
+		}
+		out := make(enc.Pairs, len(n))
+		for i, p := range n {
+			p.Value = clone(p.Value)
+			out[i] = p
+		}
+		return out
+	default:
+		return n
+	}
+}
+
 func check(c ctx.C, val enc.Map, filters ...Filter) (bool, error) {
 	for _, f := range filters {
 		ok, err := f.Check(c, val)
-- 
2.43.0


From 8ce7c2007c5618f6ac04a3ae4be8d6d66f6034d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 42/78] fix: caches: a fresh key is fetched once by concurrent
 requests

---
 utils/caches/request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/caches/request.go b/utils/caches/request.go
index 227c5c3..756dff7 100644
--- a/utils/caches/request.go
+++ b/utils/caches/request.go
@@ -44,8 +44,8 @@ func (this *RequestCache[K, V]) Request(c ctx.C, key K) (V, HitMiss, error) {
 	defer e.m.Unlock()
 
 	//log.Debugf(c, "ReqCache[%v] %v expired %v ago", key, hit, time.Since(e.expire))
-	// not a miss, and not expired
-	if hit != MISS && time.Until(e.expire) >= 0 {
+	// fetched (maybe by another request while we were waiting), and not expired
+	if time.Until(e.expire) >= 0 {
 		if e.err != nil {
 			return e.V, HIT, e.err
 		} else {
-- 
2.43.0


From f3b2e67a40ea9744f67eac2a83b5d4f29fad1ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:21 +0000
Subject: [PATCH 43/78] fix: caches: a hit makes the LRU entry recent

---
 utils/caches/lru.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index dd3e596..9cf81d4 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -65,7 +65,7 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 	i, exists := this.heap.index[k]
 	if exists {
 		entry := this.heap.list[i]
-		entry.last = time.Now()
+		this.heap.list[i].last = time.Now()
 		heap.Fix(this.heap, i)
 		return entry.val, HIT, nil
 	}
-- 
2.43.0


From 2a65843d4646e324cca6e65287efd179be68d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 44/78] fix: caches: printing an LRU takes its lock

---
 utils/caches/lru.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index 9cf81d4..c2cba2f 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -98,6 +98,9 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 }
 
 func (this *LRU[K, V]) String() string {
+	this.l.Lock()
+	defer this.l.Unlock()
+
 	if len(this.heap.list) == 0 {
 		return fmt.Sprintf("LRU{%d/%d, empty}", this.curSize, this.MaxSize)
 	}
-- 
2.43.0


From 4fae1eff0f1e64ff291a244a8bee9ec9faf18bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 45/78] fix: prom: a counter is read under its lock

---
 utils/prom/counter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index caf75da..837fd73 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -31,6 +31,12 @@ func (this *counter) observe(val float64) {
 	this.sum += val
 }
 
+func (this *counter) value() float64 {
+	this.m.Lock()
+	defer this.m.Unlock()
+	return this.sum
+}
+
 func (this *Counter) Print(w io.Writer) error {
 	first := true
 	return this.val.RangeErr(func(l string, v *counter) error {
@@ -53,10 +59,10 @@ func (this *Counter) Print(w io.Writer) error {
 			}
 		}
 		if l == "" {
-			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.sum)
+			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.value())
 			return err
 		} else {
-			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.sum)
+			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.value())
 			return err
 		}
 	})
-- 
2.43.0


From dd54b8ccf5cc19731e769898327d3c177771fee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:13 +0000
Subject: [PATCH 46/78] fix: prom: a histogram can be printed before its first
 observation ends

---
 utils/prom/histogram.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index e16d811..ab824d5 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -74,6 +74,9 @@ func (this *Histogram) Print(name string, w io.Writer) (err error) {
 func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (err error) {
 	this.m.Lock()
 	defer this.m.Unlock()
+	for len(this.buckets) < len(le) { // nothing observed yet
+		this.buckets = append(this.buckets, 0)
+	}
 	if labels == "" {
 		for i, le := range le {
 			b := this.buckets[i]
-- 
2.43.0


From b1f94ab08e76c6eb9f65249a01a9fb9376d91fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:30 +0000
Subject: [PATCH 47/78] fix: prom: escape labels and descriptions as the format
 requires

---
 utils/prom/counter.go   | 2 +-
 utils/prom/custom.go    | 2 +-
 utils/prom/gauge.go     | 2 +-
 utils/prom/histogram.go | 2 +-
 utils/prom/labels.go    | 7 ++++++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index 837fd73..454abd4 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -42,7 +42,7 @@ func (this *Counter) Print(w io.Writer) error {
 	return this.val.RangeErr(func(l string, v *counter) error {
 		if first {
 			first = false
-			_, err := fmt.Fprintf(w, "# HELP %s %s\n", this.Name, this.Desc)
+			_, err := fmt.Fprintf(w, "# HELP %s %s\n", this.Name, helpEscaper.Replace(this.Desc))
 			if err != nil {
 				return err
 			}
diff --git a/utils/prom/custom.go b/utils/prom/custom.go
index 87e2c23..c3d56e0 100644
--- a/utils/prom/custom.go
+++ b/utils/prom/custom.go
@@ -17,7 +17,7 @@ func (this *Custom) Print(name string, w io.Writer) error {
 	if len(m) == 0 {
 		return nil
 	}
-	_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, this.Desc)
+	_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, helpEscaper.Replace(this.Desc))
 	if err != nil {
 		return err
 	}
diff --git a/utils/prom/gauge.go b/utils/prom/gauge.go
index 12a7d20..c2730eb 100644
--- a/utils/prom/gauge.go
+++ b/utils/prom/gauge.go
@@ -67,7 +67,7 @@ func (this *Gauge) Print(name string, w io.Writer) error {
 	return this.val.RangeErr(func(l string, x gaugeEntry) error {
 		if first {
 			first = false
-			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, this.Desc)
+			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, helpEscaper.Replace(this.Desc))
 			if err != nil {
 				return err
 			}
diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index ab824d5..08ee30d 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -58,7 +58,7 @@ func (this *Histogram) Print(name string, w io.Writer) (err error) {
 	return this.val.RangeErr(func(l string, v *histogramTS) error {
 		if first {
 			first = false
-			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, this.Desc)
+			_, err := fmt.Fprintf(w, "# HELP %s %s\n", name, helpEscaper.Replace(this.Desc))
 			if err != nil {
 				return err
 			}
diff --git a/utils/prom/labels.go b/utils/prom/labels.go
index 66760a0..8fc6316 100644
--- a/utils/prom/labels.go
+++ b/utils/prom/labels.go
@@ -2,8 +2,13 @@ package prom
 
 import (
 	"fmt"
+	"strings"
 )
 
+// the only escapes allowed in the exposition format
+var labelEscaper = strings.NewReplacer("\\", `\\`, "\"", `\"`, "\n", `\n`)
+var helpEscaper = strings.NewReplacer("\\", `\\`, "\n", `\n`)
+
 // returns a list of labels comma separated
 func stringify(keys []string, vals []string) string {
 	if len(keys) != len(vals) {
@@ -11,7 +16,7 @@ func stringify(keys []string, vals []string) string {
 	}
 	s := ""
 	for i := 0; i < len(keys); i++ {
-		s += fmt.Sprintf(",%s=%q", keys[i], vals[i])
+		s += fmt.Sprintf(",%s=\"%s\"", keys[i], labelEscaper.Replace(strings.ToValidUTF8(vals[i], "\uFFFD")))
 	}
 	if s == "" {
 		return ""
-- 
2.43.0


From c644b1058bab2f0c3240e6eb65d130de9c9624e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:12 +0000
Subject: [PATCH 48/78] fix: sync: ranging over a map of interfaces accepts nil
 values

---
 utils/sync/map.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/sync/map.go b/utils/sync/map.go
index 8ec73ce..17d88d3 100644
--- a/utils/sync/map.go
+++ b/utils/sync/map.go
@@ -91,7 +91,8 @@ func (this *Map[K, V]) Store(key K, val V) {
 
 func (this *Map[K, V]) Range(f func(key K, val V) bool) {
 	this.m.Range(func(key, val any) bool {
-		return f(key.(K), val.(V))
+		v, _ := val.(V) // a nil interface is stored without its type
+		return f(key.(K), v)
 	})
 }
 
@@ -99,7 +100,8 @@ func (this *Map[K, V]) Range(f func(key K, val V) bool) {
 func (this *Map[K, V]) RangeErr(f func(key K, val V) error) error {
 	var err error
 	this.m.Range(func(key, val any) bool {
-		err = f(key.(K), val.(V))
+		v, _ := val.(V)
+		err = f(key.(K), v)
 		return err == nil
 	})
 	return err
-- 
2.43.0


From 1cdccb92e3a542bf6dd1e03b7657b920166925dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:16 +0000
Subject: [PATCH 49/78] fix: ctx: a tag does not share the caller's bytes

---
 ctx/tags.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ctx/tags.go b/ctx/tags.go
index f5b91ad..e0f4d38 100644
--- a/ctx/tags.go
+++ b/ctx/tags.go
@@ -1,6 +1,7 @@
 package ctx
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 )
@@ -17,12 +18,12 @@ func WithTag(c C, key string, val any) C {
 	var j []byte
 	switch val := val.(type) {
 	case json.RawMessage:
-		j = val
+		j = bytes.Clone(val) // the caller may reuse its buffer
 	case JSON:
-		j = val
+		j = bytes.Clone(val)
 	case []byte:
 		if json.Valid(val) {
-			j = val
+			j = bytes.Clone(val)
 		}
 	default:
 	}
-- 
2.43.0


From 3bc5e2424e7c46d280ef998e30d17c95ef85d8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:20 +0000
Subject: [PATCH 50/78] fix: ctx: JSON does not keep the decoder's buffer

---
 ctx/error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctx/error.go b/ctx/error.go
index 641767d..b8901be 100644
--- a/ctx/error.go
+++ b/ctx/error.go
@@ -81,7 +81,7 @@ func (this JSON) MarshalJSON() ([]byte, error) {
 	return this, nil
 }
 func (this *JSON) UnmarshalJSON(j []byte) error {
-	*this = j
+	*this = append((*this)[:0:0], j...) // j belongs to the decoder
 	return nil
 }
 func (this JSON) String() string {
-- 
2.43.0


From 34401eb194616ea56785f8a849d00080af6ade10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:24 +0000
Subject: [PATCH 51/78] fix: ctx: sibling spans have different ids

---
 ctx/span.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctx/span.go b/ctx/span.go
index 401c379..ee68440 100644
--- a/ctx/span.go
+++ b/ctx/span.go
@@ -18,7 +18,7 @@ func WithTracking(c C, suggest string) C {
 	if suggest == "" {
 		suggest = uuid.NewString()
 	}
-	return trackingCtx{
+	return &trackingCtx{
 		C:    WithTag(c, "tracking-id", suggest),
 		ID:   suggest,
 		Last: 0,
@@ -38,7 +38,7 @@ func GetTracking(c C) string {
 
 type trackingNext struct{}
 
-func (c trackingCtx) Value(k any) any {
+func (c *trackingCtx) Value(k any) any {
 	switch k.(type) {
 	case trackingNext:
 		step := atomic.AddInt32(&c.Last, 1)
-- 
2.43.0


From 8e72495c4a364ac699b6d78e4a4349f2f00bed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:27 +0000
Subject: [PATCH 52/78] fix: utils: an ErrorGate traps only its own error

---
 utils/errors.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utils/errors.go b/utils/errors.go
index 541321e..07b6b0e 100644
--- a/utils/errors.go
+++ b/utils/errors.go
@@ -12,13 +12,14 @@ func (err EOD) Error() string { return "EOD" }
 
 // call the given function passing an error, if the error is returned back (wrapped or not) it will be ignored
 func ErrorGate(f func(err error) error) error {
-	err := f(errGate{})
-	if errors.Is(err, errGate{}) {
+	gate := &errGate{} // each call traps only its own
+	err := f(gate)
+	if errors.Is(err, gate) {
 		return nil
 	}
 	return err
 }
 
-type errGate struct{}
+type errGate struct{ _ byte }
 
-func (err errGate) Error() string { return "Error: should have been trapped by ErrorGate()" }
+func (err *errGate) Error() string { return "Error: should have been trapped by ErrorGate()" }
-- 
2.43.0


From 7f668e16f2383383f2a6eda29dd356165f0dedff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:53 +0000
Subject: [PATCH 53/78] fix: log: tags can be named as the standard attributes

---
 ctx/log/log.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index ea64de9..f6b81b1 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -94,6 +94,9 @@ func WithHelper(c ctx.C, h func()) ctx.C {
 func NewDefaultSlogLogger(out io.Writer) *slog.Logger {
 	DefaultLoggerLevel.Set(slog.LevelDebug)
 	return slog.New(slog.NewJSONHandler(out, &slog.HandlerOptions{Level: DefaultLoggerLevel, ReplaceAttr: func(groups []string, a slog.Attr) slog.Attr {
+		if len(groups) > 0 {
+			return a // a tag can have any name
+		}
 		switch a.Key {
 		case slog.LevelKey:
 			level := a.Value.Any().(slog.Level)
-- 
2.43.0


From 9156c5f8ce7ee23745e97dae8dcae77443e346e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 54/78] fix: log: an error argument can be a nil pointer

---
 ctx/log/log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index f6b81b1..a9144cd 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -186,7 +186,7 @@ func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
 			args[i] = arg.LogAs(tags)
 
 		case error:
-			m := map[string]any{"error": arg.Error()}
+			m := map[string]any{"error": fmt.Sprint(arg)} // unlike Error(), accepts nil pointers
 			var err ctx.Error
 			if errors.As(arg, &err) {
 				m["stack"] = err.Stack
-- 
2.43.0


From c5151f53f53252f70dc6a443c68758761fc56921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:00 +0000
Subject: [PATCH 55/78] fix: log: a logger or helper attached to a child does
 not affect its parent

---
 ctx/log/log.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index a9144cd..cb17d09 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -171,7 +171,8 @@ func withConfig(c ctx.C, conf *config) ctx.C {
 func extractConfig(c ctx.C) *config {
 	if c != nil {
 		if conf, ok := c.Value(configKey{}).(*config); ok {
-			return conf
+			dup := *conf // the caller might change it for a child context
+			return &dup
 		}
 	}
 	return &config{}
-- 
2.43.0


From aa9c12a8d2b30ad5842a5eda8884834293b259ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 56/78] fix: log: the caller's arguments are left alone

---
 ctx/log/log.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index cb17d09..8d50426 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -180,6 +180,7 @@ func extractConfig(c ctx.C) *config {
 
 func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
 	errs := []map[string]any{}
+	args = append([]any{}, args...) // the caller's list is not ours to change
 	for i := 0; i < len(args); i++ {
 		switch arg := args[i].(type) {
 		case Loggable:
-- 
2.43.0


From 9bdb910f2b3c0455c39c6086ccdb77b2a4476b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:35 +0000
Subject: [PATCH 57/78] fix: config: named types and keys of any supported type

---
 config/config.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/config/config.go b/config/config.go
index 0e98501..1a77a19 100644
--- a/config/config.go
+++ b/config/config.go
@@ -96,13 +96,13 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 		default:
 			return ctx.NewErrorf(nil, "can't convert to boobool field %s: %q", name, val)
 		}
-		dest.Set(reflect.ValueOf(v))
+		dest.SetBool(v)
 	case reflect.Int:
 		i, err := strconv.Atoi(val)
 		if err != nil {
 			return ctx.NewErrorf(nil, "can't convert to int field %s: %q", name, val)
 		}
-		dest.Set(reflect.ValueOf(i))
+		dest.SetInt(int64(i))
 	case reflect.String:
 		v := reflect.ValueOf(val).Convert(dest.Type())
 		dest.Set(v)
@@ -132,7 +132,12 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 				if err != nil {
 					return err
 				}
-				m.SetMapIndex(reflect.ValueOf(key), v)
+				k := reflect.Indirect(reflect.New(dest.Type().Key()))
+				err = unmarshalText(c, k, name+"{}", key)
+				if err != nil {
+					return err
+				}
+				m.SetMapIndex(k, v)
 			}
 			dest.Set(m)
 		}
-- 
2.43.0


From 1520c5ffbce9aa97acad8c80ac89a2ae13de1a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:38 +0000
Subject: [PATCH 58/78] fix: config: what can't be configured is an error

---
 config/config.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 1a77a19..12b931f 100644
--- a/config/config.go
+++ b/config/config.go
@@ -19,8 +19,8 @@ func Must[T any](c ctx.C, cfg T, f func(string) string) T {
 }
 
 func From[T any](c ctx.C, cfg T, f func(string) string) (T, error) {
-	if reflect.TypeOf(cfg).Kind() != reflect.Struct {
-		return cfg, ctx.NewErrorf(c, "expected struct, got %T", cfg)
+	if t := reflect.TypeOf(&cfg).Elem(); t.Kind() != reflect.Struct {
+		return cfg, ctx.NewErrorf(c, "expected struct, got %v", t)
 	}
 	v := reflect.ValueOf(&cfg).Elem()
 	t := v.Type()
@@ -30,6 +30,9 @@ func From[T any](c ctx.C, cfg T, f func(string) string) (T, error) {
 		if tag == "" {
 			continue
 		}
+		if !ft.IsExported() {
+			return cfg, ctx.NewErrorf(c, "can't configure the unexported field %q", ft.Name)
+		}
 		parts := strings.Split(tag, ",")
 		key := parts[0]
 
-- 
2.43.0


From 418895eeb692ab1caa18903cb8371f8feb6d77ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 59/78] fix: config: a list replaces the initial one

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 12b931f..a8f7183 100644
--- a/config/config.go
+++ b/config/config.go
@@ -112,7 +112,7 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 	case reflect.Slice:
 		if val != "" {
 			parts := strings.Split(val, ",")
-			x := dest
+			x := reflect.MakeSlice(dest.Type(), 0, len(parts)) // replaces what was there
 			for _, el := range parts {
 				v := reflect.Indirect(reflect.New(dest.Type().Elem()))
 				err := unmarshalText(c, v, name+"[]", el)
-- 
2.43.0


From 700943049c78a6ee29b072097d328c3c94f8f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 60/78] fix: config: an empty value for a type with its own
 decoder

---
 config/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/config.go b/config/config.go
index a8f7183..ff66148 100644
--- a/config/config.go
+++ b/config/config.go
@@ -81,10 +81,14 @@ func unmarshalText(c ctx.C, dest reflect.Value, name string, val string) (err er
 		if val != "" {
 			return ctx.WrapError(c, v.UnmarshalText([]byte(val)))
 		}
+		dest.SetZero()
+		return nil
 	case json.Unmarshaler:
 		if val != "" {
 			return ctx.WrapError(c, v.UnmarshalJSON([]byte(val)))
 		}
+		dest.SetZero()
+		return nil
 	default:
 		//fmt.Printf("OHA %T\n", v)
 	}
-- 
2.43.0


From e59ede31f2147ec57f0db652eee82216f91495d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:24 +0000
Subject: [PATCH 61/78] fix: ast: a call can have fewer arguments than asked
 for

---
 utils/ast/call_args.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/ast/call_args.go b/utils/ast/call_args.go
index 1901a34..fd6efe6 100644
--- a/utils/ast/call_args.go
+++ b/utils/ast/call_args.go
@@ -41,6 +41,8 @@ func Assignment(above, arg int) string {
 	if aerr != nil {
 		return fl
 		//return fmt.Sprintf("<can't parse: %v>", aerr)
+	} else if arg >= len(a.Args) {
+		return fl // as with f(g()), where g() returns many
 	} else {
 		return a.Args[arg].Short()
 	}
-- 
2.43.0


From a761b64ae7b9339a20088e4e25eaffd20ac38a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:26 +0000
Subject: [PATCH 62/78] fix: ast: an argument can be an empty function

---
 utils/ast/call_args.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/ast/call_args.go b/utils/ast/call_args.go
index fd6efe6..91aea7d 100644
--- a/utils/ast/call_args.go
+++ b/utils/ast/call_args.go
@@ -137,6 +137,9 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 						}
 						switch a := a.(type) {
 						case *ast.FuncLit:
+							if len(a.Body.List) == 0 {
+								break // nothing in it, keep all of it
+							}
 							start := a.Body.List[0].Pos()
 							end := a.Body.List[len(a.Body.List)-1].End()
 							arg.Src = this.Src(start, end)
@@ -165,6 +168,9 @@ func (this visitor) Visit(n ast.Node) ast.Visitor {
 						}
 						switch a := a.(type) {
 						case *ast.FuncLit:
+							if len(a.Body.List) == 0 {
+								break // nothing in it, keep all of it
+							}
 							start := a.Body.List[0].Pos()
 							end := a.Body.List[len(a.Body.List)-1].End()
 							arg.Src = this.Src(start, end) // `func() { BODY }` => `BODY`
-- 
2.43.0


From a8d38ebff093b1a00a477c909c952ab030d88c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:19 +0000
Subject: [PATCH 63/78] fix: http: a flush sends the header, it counts as a 200

---
 http/mux.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/http/mux.go b/http/mux.go
index fce2e7b..1c98110 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -2,6 +2,7 @@ package http
 
 import (
 	"bufio"
+	"errors"
 	"net"
 	"net/http"
 	"strings"
@@ -54,6 +55,15 @@ func (r *response) Write(b []byte) (int, error) {
 	return r.ResponseWriter.Write(b)
 }
 
+// used by http.ResponseController: a flush sends the header, and then it is too late for another status
+func (r *response) FlushError() error {
+	err := http.NewResponseController(r.ResponseWriter).Flush()
+	if r.code == 0 && !errors.Is(err, http.ErrNotSupported) {
+		r.code = http.StatusOK
+	}
+	return err
+}
+
 // used by http.ResponseController
 func (r *response) Unwrap() http.ResponseWriter {
 	return r.ResponseWriter
-- 
2.43.0


From 1203c198d7d86736fcd222ee7f8a80a05bcab2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:15 +0000
Subject: [PATCH 64/78] fix: enc: handlers derived with Append do not share
 their path

---
 enc/enc.go     | 5 +++++
 enc/handler.go | 2 +-
 enc/map.go     | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/enc/enc.go b/enc/enc.go
index 249300b..f2a8651 100644
--- a/enc/enc.go
+++ b/enc/enc.go
@@ -58,6 +58,11 @@ func (this path) Parent() path {
 	return this
 }
 
+// always a copy: paths are shared by siblings, and given to callbacks which might keep them
+func (this path) append(p any) path {
+	return append(this[:len(this):len(this)], p)
+}
+
 // store the native value of a node into an interface
 func setNative(c ctx.C, handler Handler, n Node, into reflect.Value) error {
 	v := reflect.ValueOf(n.native())
diff --git a/enc/handler.go b/enc/handler.go
index 4e981ea..ac95755 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -26,7 +26,7 @@ type Handler struct {
 }
 
 func (this Handler) Append(p any) Handler {
-	this.path = append(this.path, p)
+	this.path = this.path.append(p)
 	return this
 }
 
diff --git a/enc/map.go b/enc/map.go
index 44bb9af..e3029c4 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -116,7 +116,7 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 		if handler.UnhandledFields != nil {
 			for k, v := range this {
 				if !seen[k] {
-					err := handler.UnhandledFields(c, append(handler.path, k), v)
+					err := handler.UnhandledFields(c, handler.path.append(k), v)
 					if err != nil {
 						return ctx.WrapError(c, err)
 					}
-- 
2.43.0


From da7b44dd98e2a9415c0f23c611febc32c2efa10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:19 +0000
Subject: [PATCH 65/78] fix: storage: filters compare values whatever the order
 of keys and the syntax of numbers

---
 storage/keyvalue.go | 71 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 5 deletions(-)

diff --git a/storage/keyvalue.go b/storage/keyvalue.go
index 8aced71..9a3ab0b 100644
--- a/storage/keyvalue.go
+++ b/storage/keyvalue.go
@@ -3,6 +3,9 @@ package storage
 import (
 	"bytes"
 	"encoding/json"
+	"reflect"
+	"strconv"
+	"strings"
 	"sync"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -157,13 +160,71 @@ func (this Filter) Check(c ctx.C, val enc.Map) (bool, error) {
 
 // compares the json values, independently of the node types used to hold them
 func same(c ctx.C, a, b enc.Node) (bool, error) {
-	ja, err := json.Marshal(a)
+	va, err := value(c, a)
 	if err != nil {
-		return false, ctx.NewErrorf(c, "can't compare %v: %w", a, err)
+		return false, err
 	}
-	jb, err := json.Marshal(b)
+	vb, err := value(c, b)
 	if err != nil {
-		return false, ctx.NewErrorf(c, "can't compare %v: %w", b, err)
+		return false, err
 	}
-	return bytes.Equal(ja, jb), nil
+	return reflect.DeepEqual(va, vb), nil
+}
+
+// the json value of a node: the order of the keys and the way numbers are written make no difference
+func value(c ctx.C, n enc.Node) (any, error) {
+	j, err := json.Marshal(n)
+	if err != nil {
+		return nil, ctx.NewErrorf(c, "can't compare %v: %w", n, err)
+	}
+	dec := json.NewDecoder(bytes.NewReader(j))
+	dec.UseNumber()
+	var v any
+	err = dec.Decode(&v)
+	if err != nil {
+		return nil, ctx.NewErrorf(c, "can't compare %v: %w", n, err)
+	}
+	return normalize(v), nil
+}
+
+func normalize(v any) any {
+	switch v := v.(type) {
+	case map[string]any:
+		for k := range v {
+			v[k] = normalize(v[k])
+		}
+	case []any:
+		for i := range v {
+			v[i] = normalize(v[i])
+		}
+	case json.Number:
+		return normalizeNumber(v)
+	}
+	return v
+}
+
+// rewrites the number as an integer not ending with 0 and an exponent, so equal numbers have the same text
+func normalizeNumber(n json.Number) json.Number {
+	digits, sign := strings.CutPrefix(string(n), "-")
+	exp := 0
+	if i := strings.IndexAny(digits, "eE"); i >= 0 {
+		var err error
+		exp, err = strconv.Atoi(digits[i+1:])
+		if err != nil && strings.Trim(digits[:i], "0.") != "" {
+			return n // such an exponent is as good as any other text
+		}
+		digits = digits[:i]
+	}
+	integer, fraction, _ := strings.Cut(digits, ".")
+	exp -= len(fraction)
+	digits = strings.TrimLeft(integer+fraction, "0")
+	if digits == "" {
+		return "0"
+	}
+	trimmed := strings.TrimRight(digits, "0")
+	exp += len(digits) - len(trimmed)
+	if sign {
+		trimmed = "-" + trimmed
+	}
+	return json.Number(trimmed + "e" + strconv.Itoa(exp))
 }
-- 
2.43.0


From 1fbdcf3b5f2cd1c276ea1b10e363a8f5ad95049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:29 +0000
Subject: [PATCH 66/78] fix: api: the identity of the template is not given to
 requests

---
 api/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/handler.go b/api/handler.go
index 1076831..b6f86a0 100644
--- a/api/handler.go
+++ b/api/handler.go
@@ -75,7 +75,7 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 		if tag.url != nil {
 			this.urls = append(this.urls, tag.url)
 		}
-		if (tag.in || tag.out || tag.url != nil) && ft.IsExported() {
+		if (tag.in || tag.out || tag.auth || tag.url != nil) && ft.IsExported() {
 			this.init.Field(f.i).SetZero() // not shared
 		}
 	}
-- 
2.43.0


From 4b7017ec0849b8713a3ecb3e382a4d12634866b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:53 +0000
Subject: [PATCH 67/78] fix: openapi: examples of large unsigned integers are
 numbers

---
 api/openapi/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index bbcf882..27b1827 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -322,6 +322,9 @@ func tryDecodingAsInt(c ctx.C, v string) any {
 	}
 	i, err := strconv.ParseInt(v, 10, 64)
 	if err != nil {
+		if u, err := strconv.ParseUint(v, 10, 64); err == nil {
+			return u
+		}
 		log.Warnf(c, "Unable to parse example %q as int: %s", v, err)
 		return v
 	}
-- 
2.43.0


From 8be51a1cb9a861499e1355f80159b7b69b00cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:34 +0000
Subject: [PATCH 68/78] fix: openapi: types of the same name are described
 apart

---
 api/openapi/openapi.go |  4 ++++
 api/openapi/schema.go  | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/api/openapi/openapi.go b/api/openapi/openapi.go
index 55a4837..9cafb01 100644
--- a/api/openapi/openapi.go
+++ b/api/openapi/openapi.go
@@ -1,5 +1,7 @@
 package openapi
 
+import "reflect"
+
 func NewService(title string) *Service {
 	out := &Service{
 		OpenAPI: "3.0.0",
@@ -32,6 +34,8 @@ type Service struct {
 
 	Paths      map[string]*Path `json:"paths"`
 	Components Component        `json:"components"`
+
+	types map[string]reflect.Type // those in Components.Schemas
 }
 
 type Component struct {
diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 27b1827..708a479 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -251,6 +251,7 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 		// Create reference
 		structKey := tt.PkgPath() + "/" + tt.Name()
 		structKey = strings.ReplaceAll(structKey, "/", "_")
+		structKey = this.uniqueKey(structKey, tt)
 		schema := &Schema{Reference: referencePrefix + structKey}
 
 		// Add definition if not exists (the same struct type should only be defined once)
@@ -276,6 +277,23 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 	}
 }
 
+// different types can have the same name, e.g. those declared inside functions
+func (this *Service) uniqueKey(name string, t reflect.Type) string {
+	key := name
+	for i := 2; ; i++ {
+		other := this.types[key]
+		if _, exists := this.Components.Schemas[key]; !exists || other == nil || other == t {
+			break
+		}
+		key = fmt.Sprintf("%s_%d", name, i)
+	}
+	if this.types == nil {
+		this.types = map[string]reflect.Type{}
+	}
+	this.types[key] = t
+	return key
+}
+
 func (this *Service) formatFromSchema(s *Schema) string {
 	if s == nil {
 		return ""
-- 
2.43.0


From a820d0d5cbabbe86c3705f5b4b5d5f06478137c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:46 +0000
Subject: [PATCH 69/78] fix: prom: sums and counters are printed exactly

---
 utils/prom/counter.go   | 4 ++--
 utils/prom/histogram.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index 454abd4..bc58c9d 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -59,10 +59,10 @@ func (this *Counter) Print(w io.Writer) error {
 			}
 		}
 		if l == "" {
-			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.value())
+			_, err := fmt.Fprintf(w, "%s %v\n", this.Name, v.value())
 			return err
 		} else {
-			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.value())
+			_, err := fmt.Fprintf(w, "%s{%s} %v\n", this.Name, l, v.value())
 			return err
 		}
 	})
diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index 08ee30d..89e68e4 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -91,7 +91,7 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 			return err
 		}
 
-		_, err = fmt.Fprintf(w, "%s_sum %f\n", name, this.sum)
+		_, err = fmt.Fprintf(w, "%s_sum %v\n", name, this.sum)
 		if err != nil {
 			return err
 		}
@@ -113,7 +113,7 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 			return err
 		}
 
-		_, err = fmt.Fprintf(w, "%s_sum{%s} %f\n", name, labels, this.sum)
+		_, err = fmt.Fprintf(w, "%s_sum{%s} %v\n", name, labels, this.sum)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 8f18d1f41a83c2e94a92301402eee312d1a4b7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 70/78] fix: openapi: types that write themselves are described
 as written

---
 api/openapi/schema.go | 57 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index 708a479..cb501b0 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -90,14 +90,50 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			Example: example,
 		}, nil
 
+	case enc.Digits:
+		return &Schema{
+			Type:    "number",
+			Format:  t.String(),
+			Example: tryDecodingAsNumber(c, example),
+		}, nil
+	}
+
+	custom := zero
+	if t.Kind() == reflect.Pointer {
+		custom = reflect.New(tt).Interface() // the pointer can have methods the value has not
+	}
+	switch custom.(type) {
 	case json.Marshaler, enc.Marshaler:
 		// Handle corner case where a type can be struct, but marshalled to a primitive json type
 		// In openapi schema, we want to describe the marshalled json type
-		j, err := enc.MarshalJSON(c, zero)
+		j, err := enc.MarshalJSON(c, custom)
 		if err == nil {
 			switch j[0] {
-			case '{', 'n', '[':
-				// object like, we dig further...
+			case '{':
+				switch tt.Kind() {
+				case reflect.Struct, reflect.Map:
+					// object like, we dig further...
+				default:
+					return &Schema{
+						Type:    "object",
+						Format:  t.String(),
+						Example: tryDecodingAsMap(c, example),
+					}, nil
+				}
+			case '[':
+				switch tt.Kind() {
+				case reflect.Slice, reflect.Array:
+					// list like, we dig further...
+				default:
+					return &Schema{
+						Type:    "array",
+						Format:  t.String(),
+						Items:   &Schema{},
+						Example: tryDecodingAsList(c, example),
+					}, nil
+				}
+			case 'n':
+				// nothing to learn from null, we dig further...
 			case '"':
 				return &Schema{
 					Type:    "string",
@@ -113,16 +149,10 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			case '-', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.':
 				// It could be either integer or float here, but it's not always possible to determine which
 				// Therefore just setting the type to "number", and doing best effort parsing of the example
-				var ex any
-				if strings.Contains(example, ".") {
-					ex = tryDecodingAsFloat(c, example)
-				} else {
-					ex = tryDecodingAsInt(c, example)
-				}
 				return &Schema{
 					Type:    "number",
 					Format:  t.String(),
-					Example: ex,
+					Example: tryDecodingAsNumber(c, example),
 				}, nil
 			default:
 				panic(fmt.Sprintf("%s => %s", t.String(), j))
@@ -322,6 +352,13 @@ func tryDecodingAsBool(c ctx.C, v string) any {
 	return v
 }
 
+func tryDecodingAsNumber(c ctx.C, v string) any {
+	if strings.ContainsAny(v, ".eE") {
+		return tryDecodingAsFloat(c, v)
+	}
+	return tryDecodingAsInt(c, v)
+}
+
 func tryDecodingAsFloat(c ctx.C, v string) any {
 	if v == "" {
 		return nil
-- 
2.43.0


From e9e658c22c2e47eaba24187272f460a64109ca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:37 +0000
Subject: [PATCH 71/78] fix: enc: values that contain themselves are refused

---
 enc/handler.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index ac95755..66b24f3 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -23,6 +23,16 @@ type Handler struct {
 	Debugf func(c ctx.C, f string, args ...any)
 
 	path path
+
+	level   int                // how deep Marshal is
+	visited map[visit]struct{} // where Marshal has been, when very deep
+}
+
+// something that can contain itself
+type visit struct {
+	t   reflect.Type
+	ptr uintptr
+	len int
 }
 
 func (this Handler) Append(p any) Handler {
@@ -180,9 +190,27 @@ func Marshal(c ctx.C, in any) (Node, error) {
 
 func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	//log.Warnf(c, "OHA: %T %v", in, in)
-	if v := reflect.ValueOf(in); v.Kind() == reflect.Pointer && v.IsNil() {
+	v := reflect.ValueOf(in)
+	if v.Kind() == reflect.Pointer && v.IsNil() {
 		return Nil{}, nil // never call the methods of a nil pointer
 	}
+	if this.level++; this.level > 1000 { // like encoding/json, look for cycles only when very deep
+		switch v.Kind() {
+		case reflect.Pointer, reflect.Map, reflect.Slice:
+			key := visit{t: v.Type(), ptr: v.Pointer()}
+			if v.Kind() == reflect.Slice {
+				key.len = v.Len()
+			}
+			if _, found := this.visited[key]; found {
+				return nil, ctx.NewErrorf(c, "can't marshal %T: it contains itself", in)
+			}
+			if this.visited == nil {
+				this.visited = map[visit]struct{}{}
+			}
+			this.visited[key] = struct{}{}
+			defer delete(this.visited, key)
+		}
+	}
 	switch in := in.(type) {
 	case nil:
 		return Nil{}, nil
@@ -228,7 +256,6 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 		return in, nil
 	}
 
-	v := reflect.ValueOf(in)
 	t := v.Type()
 	switch t.Kind() {
 	default:
-- 
2.43.0


From fd34e413d85a2e798712ec49c726d09a05323677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:42 +0000
Subject: [PATCH 72/78] fix: openapi: lists and maps that contain themselves
 can be described

---
 api/openapi/openapi.go |  1 +
 api/openapi/schema.go  | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/api/openapi/openapi.go b/api/openapi/openapi.go
index 9cafb01..e802fe9 100644
--- a/api/openapi/openapi.go
+++ b/api/openapi/openapi.go
@@ -36,6 +36,7 @@ type Service struct {
 	Components Component        `json:"components"`
 
 	types map[string]reflect.Type // those in Components.Schemas
+	open  map[reflect.Type]bool   // lists and maps being described
 }
 
 type Component struct {
diff --git a/api/openapi/schema.go b/api/openapi/schema.go
index cb501b0..dccd4f9 100644
--- a/api/openapi/schema.go
+++ b/api/openapi/schema.go
@@ -160,6 +160,22 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 		}
 	}
 
+	switch tt.Kind() {
+	case reflect.Array, reflect.Slice, reflect.Map:
+		if this.open[tt] { // contains itself, and unlike structs it can't be referenced
+			s := &Schema{Type: "object", Format: t.String()}
+			if tt.Kind() != reflect.Map {
+				s.Type, s.Items = "array", &Schema{}
+			}
+			return s, nil
+		}
+		if this.open == nil {
+			this.open = map[reflect.Type]bool{}
+		}
+		this.open[tt] = true
+		defer delete(this.open, tt)
+	}
+
 	switch tt.Kind() {
 	case reflect.Bool:
 		return &Schema{
@@ -242,6 +258,8 @@ func (this *Service) schemaFromType(c ctx.C, t reflect.Type, doc, example string
 			if structKey != "" {
 				structSchema.Format = t.String()
 				this.Components.Schemas[structKey] = structSchema // adding it before recursion, to protect against infinite recursion
+				defer func(open map[reflect.Type]bool) { this.open = open }(this.open)
+				this.open = nil
 			}
 
 			var fields []string
-- 
2.43.0


From f8d907e8e651da424cdc7b2eca0299dadbb69d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:48 +0000
Subject: [PATCH 73/78] fix: http: an error without a status has the one it
 wraps, or the default

---
 http/error.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/http/error.go b/http/error.go
index 5f82d34..4bf3b5c 100644
--- a/http/error.go
+++ b/http/error.go
@@ -33,8 +33,11 @@ func (this Error) Unwrap() error {
 
 func ErrorCode(err error, def int) int {
 	var e Error
-	if errors.As(err, &e) {
-		return e.Code
+	for errors.As(err, &e) {
+		if e.Code != 0 {
+			return e.Code
+		}
+		err = e.Err // no status here, look further
 	}
 	return def
 }
-- 
2.43.0


From 222917251cab30b6bb894254cefe0b2a53e047db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:16 +0000
Subject: [PATCH 74/78] fix: api: an auth field can't be one of the request

---
 api/handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/handler.go b/api/handler.go
index b6f86a0..0218ed6 100644
--- a/api/handler.go
+++ b/api/handler.go
@@ -61,6 +61,9 @@ func NewHandler[T any](c ctx.C, init T) (Handler[T], error) {
 		//log.Debugf(c, "%v.%s %+v", this.typ, ft.Name, tag)
 		f := field{i, tag}
 		if tag.auth {
+			if tag.in { // or without an identity, the client would set it
+				return this, ctx.NewErrorf(c, "auth field can't be set by the client: %T.%s", init, ft.Name)
+			}
 			if this.auth != nil {
 				return this, ctx.NewErrorf(c, "only 1 auth field is supported: %T.%s", init, ft.Name)
 			}
-- 
2.43.0


From 0d484388ec247bac97adba1bd1a091d4844d45b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:53 +0000
Subject: [PATCH 75/78] fix: prom: a slow reader of a histogram does not block
 who observes

---
 utils/prom/histogram.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index 89e68e4..a48d1dc 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -53,6 +53,18 @@ func (this *histogramTS) observe(le []float64, val float64) {
 	}
 }
 
+func (this *histogramTS) copy(n int) *histogramTS {
+	this.m.Lock()
+	defer this.m.Unlock()
+	out := &histogramTS{
+		buckets: make([]int, n), // there might be less, if nothing was observed yet
+		sum:     this.sum,
+		count:   this.count,
+	}
+	copy(out.buckets, this.buckets)
+	return out
+}
+
 func (this *Histogram) Print(name string, w io.Writer) (err error) {
 	first := true
 	return this.val.RangeErr(func(l string, v *histogramTS) error {
@@ -72,11 +84,7 @@ func (this *Histogram) Print(name string, w io.Writer) (err error) {
 }
 
 func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (err error) {
-	this.m.Lock()
-	defer this.m.Unlock()
-	for len(this.buckets) < len(le) { // nothing observed yet
-		this.buckets = append(this.buckets, 0)
-	}
+	this = this.copy(len(le)) // a slow writer must not hold up who observes
 	if labels == "" {
 		for i, le := range le {
 			b := this.buckets[i]
-- 
2.43.0


From 29abccf529765fed98f8d4a3b14f4ee475ed1c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:52 +0000
Subject: [PATCH 76/78] fix: ws: a peer that does not read can't keep a
 cancelled connection from ending

---
 http/ws/conn.go | 11 +++++++++++
 http/ws/ws.go   |  7 ++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/http/ws/conn.go b/http/ws/conn.go
index f833bac..db7ebb7 100644
--- a/http/ws/conn.go
+++ b/http/ws/conn.go
@@ -48,6 +48,17 @@ func (this *Conn) Loop(c ctx.C) error {
 			}
 		}
 	}()
+	if ws, ok := this.ws.(*wsImpl); ok {
+		over := make(chan struct{})
+		defer close(over)
+		go func() {
+			select {
+			case <-c.Done(): // a peer which does not read anymore can't block us forever
+				ws.limitWrites(closeTimeout)
+			case <-over:
+			}
+		}()
+	}
 	defer this.Close(c, 1000)
 	for {
 		select {
diff --git a/http/ws/ws.go b/http/ws/ws.go
index e73cbc2..538e5ae 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -140,9 +140,14 @@ func (this *wsImpl) read(c ctx.C) ([]byte, error) {
 	}
 }
 
+// from now on, don't block any longer than this when writing
+func (this *wsImpl) limitWrites(timeout time.Duration) {
+	_ = this.conn.SetWriteDeadline(time.Now().Add(timeout))
+}
+
 func (this *wsImpl) Close(c ctx.C, status int) error {
 	// a peer which does not read anymore can't block us forever
-	_ = this.conn.SetWriteDeadline(time.Now().Add(closeTimeout))
+	this.limitWrites(closeTimeout)
 	this.m.Lock()
 	defer this.m.Unlock()
 	err := this.conn.WriteClose(status)
-- 
2.43.0


From c3b760da4d63618a09702dc6963d4e11442476c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:47 +0000
Subject: [PATCH 77/78] fix: log: an argument whose methods panic, like a nil
 pointer, does not panic the log call

---
 ctx/log/log.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index 8d50426..064a00e 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -185,12 +185,12 @@ func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
 		switch arg := args[i].(type) {
 		case Loggable:
 			// if it implements Loggable, replace it with the return value and allow manipulation of tags
-			args[i] = arg.LogAs(tags)
+			args[i] = logAs(arg, tags)
 
 		case error:
 			m := map[string]any{"error": fmt.Sprint(arg)} // unlike Error(), accepts nil pointers
 			var err ctx.Error
-			if errors.As(arg, &err) {
+			if asError(arg, &err) {
 				m["stack"] = err.Stack
 				if err.C != nil {
 					m["tags"] = ExtractTags(err.C)
@@ -201,12 +201,35 @@ func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
 	}
 	if len(errs) > 0 {
 		if j, err := json.Marshal(errs); err == nil {
+			if *tags == nil {
+				*tags = Tags{}
+			}
 			(*tags)["error"] = ctx.JSON(j)
 		}
 	}
 	return fmt.Sprintf(f, args...)
 }
 
+// arguments can be anything, like nil pointers, and fmt doesn't panic because of them: neither do we
+
+func logAs(arg Loggable, tags *Tags) (out any) {
+	defer func() {
+		if recover() != nil {
+			out = fmt.Sprintf("!PANIC(%T)", arg) // it asked not to be shown as it is
+		}
+	}()
+	return arg.LogAs(tags)
+}
+
+func asError(arg error, err *ctx.Error) (ok bool) {
+	defer func() {
+		if recover() != nil {
+			ok = false
+		}
+	}()
+	return errors.As(arg, err)
+}
+
 func caller(above int) string {
 	_, file, line, _ := runtime.Caller(above + 1)
 	return fmt.Sprintf("%s:%d", file, line)
-- 
2.43.0


From b6f27c65827962bd2f77c76edc0c062532bc760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:30 +0000
Subject: [PATCH 78/78] fix: prom: a histogram with a +Inf bucket does not
 report it twice

---
 utils/prom/histogram.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index a48d1dc..c2b043c 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -3,6 +3,7 @@ package prom
 import (
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	"github.com/Aize-Public/forego/utils/sync"
@@ -87,6 +88,9 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 	this = this.copy(len(le)) // a slow writer must not hold up who observes
 	if labels == "" {
 		for i, le := range le {
+			if math.IsInf(le, 1) {
+				continue // always reported, below
+			}
 			b := this.buckets[i]
 			_, err = fmt.Fprintf(w, "%s_bucket{le=\"%v\"} %d\n", name, le, b)
 			if err != nil {
@@ -109,6 +113,9 @@ func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (
 		}
 	} else {
 		for i, le := range le {
+			if math.IsInf(le, 1) {
+				continue // always reported, below
+			}
 			b := this.buckets[i]
 			_, err = fmt.Fprintf(w, "%s_bucket{%s,le=\"%v\"} %d\n", name, labels, le, b)
 			if err != nil {
-- 
2.43.0

