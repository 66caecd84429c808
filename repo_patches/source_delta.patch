From a54b8ed50ddeebb1727f065494467f72efee08bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:59 +0000
Subject: [PATCH 01/69] fix: Reset and Clear leave no stale number behind

---
 dxvalue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 75bc829..07aa4af 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -213,6 +213,7 @@ func (v *DxValue)Clear()  {
 	}
 	v.fbinary = nil
 	v.fstrvalue = ""
+	v.simpleV = [8]byte{}
 }
 
 func NewObject(cached bool)*DxValue  {
@@ -350,6 +351,7 @@ func (v *DxValue)Reset(dt ValueType)  {
 	}
 	v.fbinary = nil
 	v.fstrvalue = ""
+	v.simpleV = [8]byte{}
 }
 
 func (v *DxValue)Type() ValueType {
-- 
2.43.0


From 3fa328f2224076a0a6317ea343ff971f56245385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:00 +0000
Subject: [PATCH 02/69] fix: Clone and CopyFrom keep binary data and copy
 mutable booleans

---
 dxvalue.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 07aa4af..a8fbecb 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -553,10 +553,14 @@ func (v *DxValue)Int()int64  {
 }
 
 func (v *DxValue)clone(c *ValueCache)*DxValue  {
-	if v.DataType >= VT_True{ //系统固定的值不变更
+	if v == nil{
+		return nil
+	}
+	if v.DataType >= VT_True && v.ReadOnly(){ //系统固定的值不变更
 		return v
 	}
 	rootv := c.getValue(v.DataType)
+	rootv.ExtType = v.ExtType
 	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 		copy(rootv.simpleV[:],v.simpleV[:])
 		return rootv
@@ -564,6 +568,8 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 	switch v.DataType {
 	case VT_String,VT_RawString:
 		rootv.fstrvalue = v.fstrvalue
+	case VT_Binary,VT_ExBinary:
+		rootv.fbinary = append(rootv.fbinary,v.fbinary...)
 	case VT_Object:
 		rootv.fobject.keysUnescaped = v.fobject.keysUnescaped
 		for i := 0; i<len(v.fobject.strkvs);i++{
@@ -601,6 +607,7 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 
 func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 	v.Reset(fromv.DataType)
+	v.ExtType = fromv.ExtType
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
@@ -619,6 +626,8 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 		}
 	case VT_String,VT_RawString:
 		v.fstrvalue = fromv.fstrvalue
+	case VT_Binary,VT_ExBinary:
+		v.fbinary = append(v.fbinary,fromv.fbinary...)
 	default:
 		if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 			copy(v.simpleV[:],fromv.simpleV[:])
-- 
2.43.0


From 2329955db105b0a154bd734e76bc0d8de4944206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:31 +0000
Subject: [PATCH 03/69] fix: MergeWith merges every entry, nested arrays and
 read-only scalars

---
 dxvalue.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index a8fbecb..9e6e2b6 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -415,7 +415,10 @@ type MergeFunc	func(keyPath string, oldv *DxValue,newv *DxValue)MergeOp
 
 func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte  {
 	mergeOp := MO_Normal
+	pathlen := len(parentpath)
+	value.fobject.UnEscapestrs()
 	for i := 0;i<len(value.fobject.strkvs);i++{
+		parentpath = parentpath[:pathlen]
 		idx := v.fobject.indexByName(value.fobject.strkvs[i].K)
 		if idx != -1{
 			if mergefunc!=nil{
@@ -423,21 +426,27 @@ func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte
 					parentpath = append(parentpath,'/')
 				}
 				parentpath = append(parentpath,value.fobject.strkvs[i].K...)
-				mergeOp = mergefunc(DxCommonLib.FastByte2String(parentpath),v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V)
+				mergeOp = mergefunc(string(parentpath),v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V)
 			}
 			if mergeOp == MO_Normal{
-				if v.fobject.strkvs[idx].V.DataType <= VT_Array{
-					return mergeObject(parentpath,v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V,mergefunc)
+				oldv,newv := v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V
+				if oldv != nil && oldv.DataType <= VT_Array{
+					if newv != nil && newv.DataType == oldv.DataType{
+						if oldv.DataType == VT_Object{
+							parentpath = mergeObject(parentpath,oldv,newv,mergefunc)
+						}else{
+							oldv.MergeWith(newv,mergefunc)
+						}
+					}
 				}else{
 					//合并成数组
-					oldobj := v.fobject.strkvs[idx].V.clone(nil)
-					v.fobject.strkvs[idx].V.Reset(VT_Array)
-					v.fobject.strkvs[idx].V.SetIndexValue(0,oldobj)
-					v.fobject.strkvs[idx].V.SetIndexValue(1,value.fobject.strkvs[i].V.clone(nil))
+					arr := NewArray(false)
+					arr.SetIndexValue(0,oldv.clone(nil))
+					arr.SetIndexValue(1,newv.clone(nil))
+					v.fobject.strkvs[idx].V = arr
 				}
 			}else if mergeOp == MO_Replace{
 				//直接替换
-				v.fobject.strkvs[idx].V.Reset(VT_NULL)
 				v.fobject.strkvs[idx].V = value.fobject.strkvs[i].V.clone(nil)
 			}
 		}else{
-- 
2.43.0


From eb77c1b8e707a33c93580669d7d62b18d82af0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 04/69] fix: Equal compares array lengths, exact text,
 extension types and float values

---
 dxvalue.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 9e6e2b6..dd3ed5c 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -497,7 +497,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 	if v.DataType != value.DataType {
 		if v.DataType == VT_String && value.DataType == VT_RawString ||
 			value.DataType == VT_String && v.DataType == VT_RawString{
-			return strings.EqualFold(v.String(),value.String())
+			return v.String() == value.String()
 		}
 		if v.DataType >= VT_Int && v.DataType <= VT_Double && value.DataType >= VT_Int && value.DataType <= VT_Double{
 			return v.Double() == value.Double()
@@ -506,9 +506,9 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 	}
 	switch v.DataType {
 	case VT_String,VT_RawString:
-		return v.fstrvalue == value.fstrvalue
+		return v.String() == value.String()
 	case VT_Binary,VT_ExBinary:
-		return bytes.Compare(v.fbinary,value.fbinary) == 0
+		return v.ExtType == value.ExtType && bytes.Compare(v.fbinary,value.fbinary) == 0
 	case VT_Object:
 		if len(v.fobject.strkvs) != len(value.fobject.strkvs){
 			return false
@@ -522,7 +522,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 			}
 		}
 	case VT_Array:
-		if len(v.farr) != len(v.farr){
+		if len(v.farr) != len(value.farr){
 			return false
 		}
 		for i := 0;i<len(v.farr);i++{
@@ -531,6 +531,11 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 			}
 		}
 	default:
+		if v.DataType == VT_Float || v.DataType == VT_Double{
+			if v.Double() == value.Double(){
+				return true
+			}
+		}
 		if v.DataType >= VT_ExBinary{
 			return v.DataType == value.DataType
 		}
-- 
2.43.0


From a0b33c04adc651cf39fa2a4fd2a7a71033373597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:33 +0000
Subject: [PATCH 05/69] fix: Bool of negative floats is false and typed reads
 see unescaped text

---
 dxvalue.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index dd3ed5c..c0ef85b 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -561,7 +561,7 @@ func (v *DxValue)Int()int64  {
 	case VT_Float:
 		return int64(*((*float32)(unsafe.Pointer(&v.simpleV[0]))))
 	case VT_String,VT_RawString:
-		return DxCommonLib.StrToIntDef(v.fstrvalue,0)
+		return DxCommonLib.StrToIntDef(v.String(),0)
 	}
 	return 0
 }
@@ -902,13 +902,13 @@ func (v *DxValue)SetKeyTime(Name string,value time.Time)  {
 
 func (v *DxValue)Bool()bool  {
 	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
-		return *((*int64)(unsafe.Pointer(&v.simpleV[0]))) > 0
+		return v.Double() > 0
 	}
 	switch v.DataType {
 	case VT_True:
 		return true
 	case VT_String,VT_RawString:
-		return strings.EqualFold(v.fstrvalue,"true")
+		return strings.EqualFold(v.String(),"true")
 	}
 	return false
 }
@@ -941,7 +941,7 @@ func (v *DxValue)Double()float64  {
 	case VT_Float:
 		return float64(*((*float32)(unsafe.Pointer(&v.simpleV[0]))))
 	case VT_String,VT_RawString:
-		return DxCommonLib.StrToFloatDef(v.fstrvalue,0)
+		return DxCommonLib.StrToFloatDef(v.String(),0)
 	}
 	return 0
 }
@@ -959,7 +959,7 @@ func (v *DxValue)Float()float32  {
 	case VT_Float:
 		return *((*float32)(unsafe.Pointer(&v.simpleV[0])))
 	case VT_String,VT_RawString:
-		return float32(DxCommonLib.StrToFloatDef(v.fstrvalue,0))
+		return float32(DxCommonLib.StrToFloatDef(v.String(),0))
 	}
 	return 0
 }
@@ -982,11 +982,11 @@ func (v *DxValue)DateTime()DxCommonLib.TDateTime  {
 	case VT_Int,VT_Double,VT_Float,VT_DateTime:
 		return (DxCommonLib.TDateTime)(v.Double())
 	case VT_String,VT_RawString:
-		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.fstrvalue,time.Local);err == nil{
+		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
-		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
-		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.String(),time.Local);err == nil{
 			return DxCommonLib.Time2DelphiTime(t)
 		}
 	}
@@ -998,11 +998,11 @@ func (v *DxValue)GoTime()time.Time  {
 	case VT_Int,VT_Float,VT_Double, VT_DateTime:
 		return (DxCommonLib.TDateTime)(v.Double()).ToTime()
 	case VT_String,VT_RawString:
-		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.fstrvalue,time.Local);err == nil{
+		if t,err := time.ParseInLocation("2006-01-02T15:04:05Z",v.String(),time.Local);err == nil{
 			return t
-		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006-01-02 15:04:05",v.String(),time.Local);err == nil{
 			return t
-		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.fstrvalue,time.Local);err == nil{
+		}else if t,err = time.ParseInLocation("2006/01/02 15:04:05",v.String(),time.Local);err == nil{
 			return t
 		}
 	}
-- 
2.43.0


From 824552eea0ac332422137c69dd9b638d98b49b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:33 +0000
Subject: [PATCH 06/69] fix: visiting, key names and MsgPack output show
 unescaped text

---
 dxvalue.go      | 2 ++
 msgpackparse.go | 7 ++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index c0ef85b..0d6a2ab 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1342,6 +1342,7 @@ func (v *DxValue)ValueByIndex(idx int)*DxValue{
 func (v *DxValue)KeyNameByIndex(idx int)string  {
 	if v.DataType == VT_Object{
 		if idx >= 0 && idx < len(v.fobject.strkvs){
+			v.fobject.UnEscapestrs()
 			return v.fobject.strkvs[idx].K
 		}
 	}
@@ -1351,6 +1352,7 @@ func (v *DxValue)KeyNameByIndex(idx int)string  {
 func (v *DxValue)Visit(f func(Key string,value *DxValue) bool)  {
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		for i := 0;i<len(v.fobject.strkvs);i++{
 			if !f(v.fobject.strkvs[i].K,v.fobject.strkvs[i].V){
 				return
diff --git a/msgpackparse.go b/msgpackparse.go
index a2df411..2631e3b 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -518,6 +518,7 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 	}
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		l := len(v.fobject.strkvs)
 		dst = writeMapCode(l,dst)
 		for i := 0;i < l;i++{
@@ -584,9 +585,9 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 	case VT_Int:
 		dst = writeInt(v.Int(),dst)
 	case VT_String,VT_RawString:
-		l := len(v.fstrvalue)
-		dst = writeStrCode(l,dst)
-		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
+		str := v.String()
+		dst = writeStrCode(len(str),dst)
+		dst = append(dst,DxCommonLib.FastString2Byte(str)...)
 	case VT_False:
 		dst = append(dst,byte(CodeFalse))
 	case VT_True:
-- 
2.43.0


From 7532beff9ab5fe9275dacbb9d929f78debad8762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 07/69] fix: setters and loaders never write into the shared
 read-only constants

---
 dxvalue.go | 49 ++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 0d6a2ab..f7ccbf8 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -2,6 +2,7 @@ package dxsvalue
 
 import (
 	"bytes"
+	"errors"
 	"github.com/suiyunonghen/DxCommonLib"
 	"math"
 	"reflect"
@@ -31,6 +32,7 @@ const(
 )
 var(
 	IgnoreCase = false		//是否忽略大小写
+	ErrReadOnly = errors.New("dxsvalue: the value is a read only constant")
 )
 
 
@@ -190,6 +192,9 @@ func (v *DxValue)ValueCache()*ValueCache  {
 }
 
 func (v *DxValue)Clear()  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.ownercache != nil{
 		v.ownercache.Reset(false) //根不回收
 	}
@@ -258,6 +263,9 @@ func NewCacheValue(tp ValueType)*DxValue  {
 }
 
 func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
@@ -267,6 +275,9 @@ func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	b,_ = skipWB(b)
 	if len(b) == 0{
@@ -277,6 +288,9 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromYaml(b []byte)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	spacount := 0
 	for i := 0;i<len(b);i++{
@@ -308,6 +322,9 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 }
 
 func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
@@ -620,6 +637,9 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 }
 
 func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
+	if v.ReadOnly() || v == fromv{
+		return
+	}
 	v.Reset(fromv.DataType)
 	v.ExtType = fromv.ExtType
 	switch fromv.DataType {
@@ -723,6 +743,9 @@ func (v *DxValue)ForcePath(vt ValueType,paths ...string)*DxValue  {
 }
 
 func (v *DxValue)SetInt(value int64)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Int{
 		v.Reset(VT_Int)
 	}
@@ -837,6 +860,9 @@ func (v *DxValue)Items(idx int)(string,*DxValue)  {
 }
 
 func (v *DxValue)SetString(value string)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_String{
 		v.Reset(VT_String)
 	}
@@ -1020,6 +1046,9 @@ func (v *DxValue)SetDouble(value float64)  {
 }
 
 func (v *DxValue)SetTime(value time.Time)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
@@ -1027,6 +1056,9 @@ func (v *DxValue)SetTime(value time.Time)  {
 }
 
 func (v *DxValue)SetDelphiTime(value DxCommonLib.TDateTime)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
@@ -1155,13 +1187,16 @@ func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
 			return v.SetIndex(int(idx),tp)
 		}
 	}
+	if v.ReadOnly(){
+		return NewValue(tp)
+	}
 	if v.DataType != VT_Object{
 		v.Reset(VT_Object)
 	}
 	idx := v.fobject.indexByName(Name)
 	if idx >= 0{
 		result := v.fobject.strkvs[idx].V
-		if result == valueTrue || result == valueFalse || result == valueINF || result == valueNAN || result == valueNull{
+		if result == nil || result == valueTrue || result == valueFalse || result == valueINF || result == valueNAN || result == valueNull{
 			result = c.getValue(tp)
 			v.fobject.strkvs[idx].V = result
 		}else if result.DataType != tp {
@@ -1189,6 +1224,9 @@ func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
 			return
 		}
 	}
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Object{
 		v.Reset(VT_Object)
 	}
@@ -1203,6 +1241,9 @@ func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
 }
 
 func (v *DxValue)SetIndexValue(idx int,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
@@ -1240,6 +1281,9 @@ func (v *DxValue)Append(tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
+	if v.ReadOnly(){
+		return NewValue(tp)
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
@@ -1266,6 +1310,9 @@ func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)InsertValue(idx int,tp ValueType)*DxValue  {
+	if v.ReadOnly(){
+		return NewValue(tp)
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
-- 
2.43.0


From 852645e05ad3e2153db9e63ea961c85abd14d6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:39 +0000
Subject: [PATCH 08/69] fix: AddFrom keeps keys unique and their escape state
 consistent

---
 dxvalue.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index f7ccbf8..4eaafee 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -622,8 +622,12 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 		if c == nil{
 			c = v.ownercache
 		}
-		v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
+		v.fobject.UnEscapestrs()
+		fromv.fobject.UnEscapestrs()
 		for i := 0; i<len(fromv.fobject.strkvs);i++{
+			if v.fobject.indexByName(fromv.fobject.strkvs[i].K) >= 0{
+				continue
+			}
 			rkv := v.fobject.getKv()
 			rkv.K = fromv.fobject.strkvs[i].K
 			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
-- 
2.43.0


From 01aa0b57df593ab7352d91b9905e1a4b39f220ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:39 +0000
Subject: [PATCH 09/69] fix: JSON numbers keep their value: exponents, doubles,
 big integers and numbers ending the text

---
 jsonparse.go | 58 +++++++++++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 3bd1cc5..23f5280 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -547,11 +547,9 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 }
 
 func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
-	isfloat := false
 	for i := 0; i < len(b); i++ {
 		ch := b[i]
-		isfloat = ch == '.'
-		if (ch >= '0' && ch <= '9') || isfloat || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
+		if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
 			continue
 		}
 		if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
@@ -568,27 +566,30 @@ func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
 			}
 			return b, errors.New("无效的Json格式")
 		}
-		ns := b[:i]
-		b = b[i:]
-		if isfloat{
-			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
-			num.SetFloat(float32(v))
-		}else{
-			v := DxCommonLib.StrToIntDef(DxCommonLib.FastByte2String(ns),0)
-			num.SetInt(v)
-		}
-		return b, nil
+		return b[i:], setJsonNum(num,b[:i])
 	}
-	return nil, nil
+	return nil, setJsonNum(num,b)
+}
+
+//整数存为VT_Int，小数、指数以及超出int64范围的存为VT_Double
+func setJsonNum(num *DxValue,ns []byte)error  {
+	if v,err := strconv.ParseInt(string(ns),10,64);err == nil{
+		num.Reset(VT_Int)
+		num.SetInt(v)
+		return nil
+	}
+	v,err := strconv.ParseFloat(string(ns),64)
+	if err != nil{
+		return err
+	}
+	num.Reset(VT_Double)
+	num.SetDouble(v)
+	return nil
 }
 
 func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error) {
-	isfloat := false
 	for i := 0; i < len(b); i++ {
 		ch := b[i]
-		if !isfloat{
-			isfloat = ch == '.'
-		}
 		if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
 			continue
 		}
@@ -604,20 +605,17 @@ func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error)
 			}
 			return nil, b, errors.New("无效的Json格式")
 		}
-		ns := b[:i]
-		b = b[i:]
-		if isfloat{
-			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
-			num = c.getValue(VT_Float)
-			num.SetFloat(float32(v))
-		}else{
-			v := DxCommonLib.StrToIntDef(DxCommonLib.FastByte2String(ns),0)
-			num = c.getValue(VT_Int)
-			num.SetInt(v)
+		num = c.getValue(VT_Int)
+		if err = setJsonNum(num,b[:i]);err != nil{
+			return nil, b, err
 		}
-		return num, b, nil
+		return num, b[i:], nil
+	}
+	num = c.getValue(VT_Int)
+	if err = setJsonNum(num,b);err != nil{
+		return nil, b, err
 	}
-	return nil, nil, nil
+	return num, nil, nil
 }
 
 func skipWB(b []byte) (r []byte,skiplen int) {
-- 
2.43.0


From 981258585d66eacbea571e58769c9b0d03828d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:40 +0000
Subject: [PATCH 10/69] fix: only nan is read as nan, other text starting with
 n is an error

---
 jsonparse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 23f5280..de2ab71 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -477,7 +477,7 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				return valueNAN, b[3:], nil
 			}
 			return nil, b,errors.New("无效的Json格式")
@@ -534,7 +534,7 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				v.Reset(VT_NAN)
 				return  b[3:], nil
 			}
-- 
2.43.0


From 0241c96f1bc2dbdf22550cf7efa8ff05c4c0797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:41 +0000
Subject: [PATCH 11/69] fix: object keys with escape sequences are parsed

---
 jsonparse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonparse.go b/jsonparse.go
index de2ab71..a3358b3 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -235,6 +235,7 @@ func parseJsonKey(b []byte,sharebinary bool) (key string, tail []byte, err error
 					jpe.Type = JET_NoKeyEnd
 				}
 			}
+			return
 		}
 	}
 	return "", nil, &ErrorParseJson{
-- 
2.43.0


From facd72e0d6a2354c3b719f23b2e14d07ae7afe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:41 +0000
Subject: [PATCH 12/69] fix: the message of a JSON error can always be read

---
 jsonparse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonparse.go b/jsonparse.go
index a3358b3..0747e87 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -54,6 +54,9 @@ type ErrorParseJson struct {
 func (err *ErrorParseJson)Error()string  {
 	b := err.parseB
 	l := len(b)
+	if err.InvalidIndex > l{
+		return fmt.Sprintf("解析发生错误：%s",err.Type.String())
+	}
 	if l > err.InvalidIndex + 32{
 		l = err.InvalidIndex + 32
 	}
-- 
2.43.0


From 0d4b5e40b88a4cfe8ca388dad4728cb50ac50932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:17 +0000
Subject: [PATCH 13/69] fix: escape and unescape JSON text as the standard says

---
 dxvalue.go   |   4 +-
 jsonparse.go | 117 +++++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 115 insertions(+), 6 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 4eaafee..8606a7f 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -140,7 +140,7 @@ func (obj *VObject)UnEscapestrs()  {
 	}
 	for i := range obj.strkvs {
 		kv := &obj.strkvs[i]
-		kv.K = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(kv.K))
+		kv.K = unEscapeJson(kv.K)
 	}
 	obj.keysUnescaped = true
 }
@@ -801,7 +801,7 @@ func (v *DxValue)String()string  {
 	case VT_ExBinary:
 	case VT_RawString:
 		v.DataType = VT_String
-		v.fstrvalue = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(v.fstrvalue))
+		v.fstrvalue = unEscapeJson(v.fstrvalue)
 		return v.fstrvalue
 	case VT_Object,VT_Array:
 		return DxCommonLib.FastByte2String(Value2FormatJson(v,JSE_OnlyAnsiChar,false,nil))
diff --git a/jsonparse.go b/jsonparse.go
index 0747e87..da3959f 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -7,6 +7,9 @@ import (
 	"github.com/suiyunonghen/DxCommonLib"
 	"os"
 	"strconv"
+	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
 )
 
 type JsonErrType	uint8
@@ -637,6 +640,112 @@ func skipWB(b []byte) (r []byte,skiplen int) {
 	return nil,0
 }
 
+//解析Json字符串中的转义字符，无效的转义原样保留
+func unEscapeJson(str string)string  {
+	idx := strings.IndexByte(str,'\\')
+	if idx < 0{
+		return str
+	}
+	l := len(str)
+	buf := append(make([]byte,0,l),str[:idx]...)
+	for i := idx;i<l;i++{
+		if str[i] != '\\' || i + 1 == l{
+			buf = append(buf,str[i])
+			continue
+		}
+		i++
+		switch str[i] {
+		case '"','\\','/','\'':
+			buf = append(buf,str[i])
+		case 'a':
+			buf = append(buf,'\a')
+		case 'b':
+			buf = append(buf,'\b')
+		case 'f':
+			buf = append(buf,'\f')
+		case 'n':
+			buf = append(buf,'\n')
+		case 'r':
+			buf = append(buf,'\r')
+		case 't':
+			buf = append(buf,'\t')
+		case 'v':
+			buf = append(buf,'\v')
+		case 'u':
+			r := hexRune(str[i+1:])
+			if r < 0{
+				buf = append(buf,'\\','u')
+				continue
+			}
+			i += 4
+			if utf16.IsSurrogate(r){
+				//代理对，需要和后面的一个组合
+				low := rune(-1)
+				if i + 2 < l && str[i+1] == '\\' && str[i+2] == 'u'{
+					low = hexRune(str[i+3:])
+				}
+				r = utf16.DecodeRune(r,low)
+				if r != utf8.RuneError{
+					i += 6
+				}
+			}
+			buf = append(buf,string(r)...)
+		default:
+			buf = append(buf,'\\',str[i])
+		}
+	}
+	return string(buf)
+}
+
+func hexRune(str string)rune  {
+	if len(str) < 4{
+		return -1
+	}
+	r,err := strconv.ParseUint(str[:4],16,32)
+	if err != nil{
+		return -1
+	}
+	return rune(r)
+}
+
+const hexDigits = "0123456789ABCDEF"
+
+//按Json规范转义字符串，escapeUnicode表示非Ansi字符也转义成\uXXXX
+func escapeJson(str string,escapeUnicode bool,dst []byte)[]byte  {
+	appendHex := func(r rune) {
+		dst = append(dst,'\\','u',hexDigits[r>>12&0xF],hexDigits[r>>8&0xF],hexDigits[r>>4&0xF],hexDigits[r&0xF])
+	}
+	for _,r := range str{
+		switch {
+		case r == '"' || r == '\\':
+			dst = append(dst,'\\',byte(r))
+		case r == '\b':
+			dst = append(dst,'\\','b')
+		case r == '\f':
+			dst = append(dst,'\\','f')
+		case r == '\n':
+			dst = append(dst,'\\','n')
+		case r == '\r':
+			dst = append(dst,'\\','r')
+		case r == '\t':
+			dst = append(dst,'\\','t')
+		case r < ' ':
+			appendHex(r)
+		case r < utf8.RuneSelf:
+			dst = append(dst,byte(r))
+		case !escapeUnicode:
+			dst = append(dst,string(r)...)
+		case r < 0x10000:
+			appendHex(r)
+		default:
+			r1,r2 := utf16.EncodeRune(r)
+			appendHex(r1)
+			appendHex(r2)
+		}
+	}
+	return dst
+}
+
 type JsonEscapeStyle	uint8
 const(
 	JSE_NoEscape JsonEscapeStyle = iota
@@ -667,7 +776,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 				dst = append(dst,v.fobject.strkvs[i].K...)
 			default:
 				if escapeStyle != JSE_NoEscape &&  v.fobject.keysUnescaped{
-					dst = DxCommonLib.EscapeJsonbyte(v.fobject.strkvs[i].K,escapeStyle==JSE_AllEscape,dst)
+					dst = escapeJson(v.fobject.strkvs[i].K,escapeStyle==JSE_AllEscape,dst)
 				}else{
 					dst = append(dst,v.fobject.strkvs[i].K...)
 				}
@@ -683,7 +792,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		if escapeStyle == JSE_NoEscape {
 			dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
 		}else{
-			dst = DxCommonLib.EscapeJsonbyte(v.fstrvalue,escapeStyle==JSE_AllEscape,dst)
+			dst = escapeJson(v.fstrvalue,escapeStyle==JSE_AllEscape,dst)
 		}
 
 		dst = append(dst,'"')
@@ -755,7 +864,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			dst = append(dst,'"')
 			if escapeStyle != JSE_NoEscape{
 				if v.fobject.keysUnescaped{
-					dst = DxCommonLib.EscapeJsonbyte(v.fobject.strkvs[i].K,escapeStyle == JSE_AllEscape,dst)
+					dst = escapeJson(v.fobject.strkvs[i].K,escapeStyle == JSE_AllEscape,dst)
 				}else{
 					dst = append(dst,v.fobject.strkvs[i].K...)
 				}
@@ -791,7 +900,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		if escapeStyle == JSE_NoEscape {
 			dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
 		}else{
-			dst = DxCommonLib.EscapeJsonbyte(v.fstrvalue,escapeStyle == JSE_AllEscape,dst)
+			dst = escapeJson(v.fstrvalue,escapeStyle == JSE_AllEscape,dst)
 		}
 		dst = append(dst,'"')
 	case VT_Array:
-- 
2.43.0


From 57eb40ad123aa6a0c243f03330e2156c53d20f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:18 +0000
Subject: [PATCH 14/69] fix: an object entry without value is written as null
 instead of crashing

---
 jsonparse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonparse.go b/jsonparse.go
index da3959f..07534c4 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -758,6 +758,9 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 	if dst == nil{
 		dst = make([]byte,0,256)
 	}
+	if v == nil{
+		return append(dst,'n','u','l','l')
+	}
 	switch v.DataType {
 	case VT_Object:
 		dst = append(dst,'{')
@@ -847,6 +850,9 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 	if dst == nil{
 		dst = make([]byte,0,256)
 	}
+	if v == nil{
+		return append(dst,'n','u','l','l')
+	}
 
 	formatSpace := func(level int) {
 		for i := 0;i<level;i++{
-- 
2.43.0


From 193a4ff3784246fb817d6e9d05f6478fc1003d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:18 +0000
Subject: [PATCH 15/69] fix: nan and inf are written as the literals the JSON
 reader accepts

---
 jsonparse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jsonparse.go b/jsonparse.go
index 07534c4..8e40a25 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -838,6 +838,10 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 
 	case VT_NULL:
 		dst = append(dst,'n','u','l','l')
+	case VT_NAN:
+		dst = append(dst,nanbyte...)
+	case VT_INF:
+		dst = append(dst,infbyte...)
 	}
 	return dst
 }
@@ -951,6 +955,10 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 
 	case VT_NULL:
 		dst = append(dst,'n','u','l','l')
+	case VT_NAN:
+		dst = append(dst,nanbyte...)
+	case VT_INF:
+		dst = append(dst,infbyte...)
 	}
 	return dst
 }
-- 
2.43.0


From 3719f7695271ef949fd237cd7faab2d186d2a669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:19 +0000
Subject: [PATCH 16/69] fix: binary data is written as a JSON string instead of
 nothing, bare text or a crash

---
 dxvalue.go   |  2 +-
 jsonparse.go | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 8606a7f..e6c789b 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -794,7 +794,7 @@ func (v *DxValue)String()string  {
 		default:
 			dst = make([]byte,0,128)
 			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary)...)
 			dst = append(dst,')')
 		}
 		return DxCommonLib.FastByte2String(dst)
diff --git a/jsonparse.go b/jsonparse.go
index 8e40a25..904ed06 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -789,6 +789,8 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			dst = Value2Json(v.fobject.strkvs[i].V,escapeStyle,escapeDatetime,dst)
 		}
 		dst = append(dst,'}')
+	case VT_Binary,VT_ExBinary:
+		dst = formatValue(v,escapeStyle,escapeDatetime,dst,0)
 	case VT_String:
 		dst = append(dst,'"')
 
@@ -901,10 +903,14 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
 			dst = append(dst,'"','}')
 		default:
-			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,')')
-		}
+			dst = append(dst,"\"Bin("...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary)...)
+			dst = append(dst,")\""...)
+		}
+	case VT_ExBinary:
+		dst = append(dst,"\"Bin("...)
+		dst = append(dst,DxCommonLib.Bin2Hex(v.Binary())...)
+		dst = append(dst,")\""...)
 	case VT_String:
 		dst = append(dst,'"')
 		if escapeStyle == JSE_NoEscape {
-- 
2.43.0


From 7ea48619f11acc9ffc9e8dac12cd8d760c6e72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:50 +0000
Subject: [PATCH 17/69] fix: LoadFromJson sets the kind, rejects trailing text
 and leaves an empty value on error

---
 dxvalue.go   | 14 +++++++++++++-
 jsonparse.go |  2 ++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index e6c789b..299b425 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -283,7 +283,19 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 	if len(b) == 0{
 		return nil
 	}
-	_,err := parseJson2Value(b,v,sharebinary)
+	tail,err := parseJson2Value(b,v,sharebinary)
+	if err == nil{
+		if b,skiplen := skipWB(tail);len(b) > 0{
+			err = &ErrorParseJson{
+				Type:         JET_Invalidate,
+				InvalidIndex: skiplen,
+				parseB:       tail,
+			}
+		}
+	}
+	if err != nil{
+		v.Clear()
+	}
 	return err
 }
 
diff --git a/jsonparse.go b/jsonparse.go
index 904ed06..1b1632a 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -503,9 +503,11 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 		}
 	}
 	if b[0] == '{'{
+		v.Reset(VT_Object)
 		return parseJsonObj2V(b[1:],v,sharebinary)
 	}
 	if b[0] == '[' {
+		v.Reset(VT_Array)
 		return parseJsonArray2V(b[1:],v,sharebinary)
 	}
 	if b[0] == '"' {
-- 
2.43.0


From 6f568232dda5f896c19cc3412f5d776a94637c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:50 +0000
Subject: [PATCH 18/69] fix: LoadFromMsgPack sets the kind, survives cut maps
 and leaves an empty value on error

---
 dxvalue.go      |  3 +++
 msgpackparse.go | 12 +++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 299b425..a43adbc 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -271,6 +271,9 @@ func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
 		return nil
 	}
 	_,err := parseMsgPack2Value(b,v,sharebinary)
+	if err != nil{
+		v.Clear()
+	}
 	return err
 }
 
diff --git a/msgpackparse.go b/msgpackparse.go
index 2631e3b..04c7aa9 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -31,10 +31,11 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Object)
 	if maplen == 0{
 		return b,nil
 	}
-	if !MsgPackCode(b[0]).IsStr(){
+	if len(b) == 0 || !MsgPackCode(b[0]).IsStr(){
 		return b,ErrMapKey
 	}
 	var rawbyte []byte
@@ -72,7 +73,7 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 	if maplen == 0{
 		return c.getValue(VT_Object),b,nil
 	}
-	if !MsgPackCode(b[0]).IsStr(){
+	if len(b) == 0 || !MsgPackCode(b[0]).IsStr(){
 		return nil,b,ErrMapKey
 	}
 	var rawbyte []byte
@@ -140,11 +141,11 @@ func parseMsgPackArray2V(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)(
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Array)
 	if arrlen == 0{
 		return b,nil
 	}
 	var value *DxValue
-	v.Reset(VT_Array)
 	for i := 0;i<arrlen;i++{
 		value,b,err = parseMsgPackValue(b,c,sharebinary)
 		if err != nil{
@@ -338,6 +339,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return tail,err
 		}
+		v.Reset(VT_String)
 		if sharebinary{
 			v.fstrvalue = DxCommonLib.FastByte2String(strbt)
 		}else{
@@ -411,6 +413,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
+		v.Reset(VT_Double)
 		v.SetDouble(*(*float64)(unsafe.Pointer(&u64)))
 		return b,nil
 	case code == CodeTrue:
@@ -434,6 +437,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		haslen := len(b)
 		if blen <= haslen{
 			tail = b[blen:]
+			v.Reset(VT_Binary)
 			if sharebinary{
 				v.fbinary = b[:blen]
 			}else{
@@ -455,6 +459,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		tail = b[exlen+1:]
 		if code.IsTime(b[0]){
 			//日期时间
+			v.Reset(VT_DateTime)
 			switch code {
 			case CodeFixExt4:
 				sec := binary.BigEndian.Uint32(b[1:])
@@ -474,6 +479,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				v.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
 			}
 		}else{
+			v.Reset(VT_ExBinary)
 			if sharebinary{
 				v.fbinary = b[:exlen+1]
 			}else{
-- 
2.43.0


From d4e01fe9f068e65cbee4204d4e77a6f23d19ccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:51 +0000
Subject: [PATCH 19/69] fix: MsgPack extension data gets exactly one header

---
 msgpack_value.go | 6 ++++++
 msgpackparse.go  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/msgpack_value.go b/msgpack_value.go
index 3c3c8a9..72e6061 100644
--- a/msgpack_value.go
+++ b/msgpack_value.go
@@ -178,7 +178,13 @@ func writeExtCode(exlen int,dst []byte)[]byte  {
 		dst = append(dst,byte(CodeFixExt8))
 	case 16:
 		dst = append(dst,byte(CodeFixExt16))
+	default:
+		return writeVarExtCode(exlen,dst)
 	}
+	return dst
+}
+
+func writeVarExtCode(exlen int,dst []byte)[]byte  {
 	if exlen < 256 {
 		dst = append(dst,byte(CodeExt8),byte(exlen))
 	}else if exlen < 65536 {
diff --git a/msgpackparse.go b/msgpackparse.go
index 04c7aa9..8e5e9c5 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -577,6 +577,9 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 		}
 		dst = writeExtCode(blen,dst)
 		//直接写入内容
+		if len(v.fbinary) == 0{
+			dst = append(dst,0)
+		}
 		dst = append(dst,v.fbinary...)
 	case VT_Binary:
 		blen := len(v.fbinary)
-- 
2.43.0


From 0607fefcefbbfc07046e2ae44922b6a1a0632464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:52 +0000
Subject: [PATCH 20/69] fix: cut MsgPack extension data and odd sized time
 stamps no longer crash

---
 msgpackparse.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 8e5e9c5..c7984c6 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -290,12 +290,12 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 		if err != nil{
 			return result,b,err
 		}
-		haslen := len(b)
+		haslen := len(b) - 1 //有一个字节的扩展类型
 		if haslen < exlen{
 			return nil,b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-		if code.IsTime(b[0]){
+		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
 			result = c.getValue(VT_DateTime)
 			switch code {
@@ -452,12 +452,12 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
-		haslen := len(b)
+		haslen := len(b) - 1 //有一个字节的扩展类型
 		if haslen < exlen{
 			return b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-		if code.IsTime(b[0]){
+		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
 			v.Reset(VT_DateTime)
 			switch code {
-- 
2.43.0


From 5d11de337ae1ec011b01f850d4cf8185aa7fd374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:52 +0000
Subject: [PATCH 21/69] fix: the reserved MsgPack code is an error

---
 msgpackparse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msgpackparse.go b/msgpackparse.go
index c7984c6..f073f36 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -324,6 +324,8 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 				result.fbinary = append(result.fbinary[:0],b[:exlen+1]...)
 			}
 		}
+	default:
+		err = ErrInvalidateCode
 	}
 	return
 }
@@ -486,6 +488,8 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				v.fbinary = append(v.fbinary,b[:exlen+1]...)
 			}
 		}
+	default:
+		err = ErrInvalidateCode
 	}
 	return
 }
-- 
2.43.0


From ce2599221eb9d92ce68f599eb46a419454bb2bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 22/69] fix: nan and inf are written to MsgPack

---
 msgpackparse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msgpackparse.go b/msgpackparse.go
index f073f36..14f208d 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -607,6 +607,12 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 		dst = append(dst,byte(CodeTrue))
 	case VT_NULL:
 		dst = append(dst,byte(CodeNil))
+	case VT_NAN,VT_INF:
+		u64 := math.Float64bits(math.NaN())
+		if v.DataType == VT_INF{
+			u64 = math.Float64bits(math.Inf(1))
+		}
+		dst = append(dst,byte(CodeDouble),byte(u64 >> 56),byte(u64 >> 48),byte(u64 >> 40),byte(u64 >> 32),byte(u64 >> 24),byte(u64 >> 16),byte(u64 >> 8),byte(u64))
 	}
 	return dst
 }
\ No newline at end of file
-- 
2.43.0


From 474e7cb3b7ee465faf435762d2de4f8b5e1e03a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:32 +0000
Subject: [PATCH 23/69] fix: LoadFromBson sets the kind and leaves an empty
 value on error

---
 dxvalue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index a43adbc..744d8c7 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -344,7 +344,11 @@ func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
 	if len(b) == 0{
 		return nil
 	}
+	v.Reset(VT_Object)
 	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v)
+	if err != nil{
+		v.Clear()
+	}
 	return  err
 }
 
-- 
2.43.0


From 3bf46369e732b1b80d41f8a56a58ef7caab200a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:44 +0000
Subject: [PATCH 24/69] fix: BSON documents may be empty, and must be long
 enough and terminated

---
 bson_parse.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index ad1e012..2033c31 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -27,15 +27,19 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 	}
 	//文档长度
 	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
+	if docLen < 5 || docLen > len(b){
 		return docLen,0,ErrBadBSONDocLen
 	}
+	b = b[:docLen]
 	parseIndex = 4
 	var element *DxValue
 	var keyName string
 	//读取文档体，由一个个的元素组成
 	//每个元素为一个类型+字段名+值组成
 	for parseIndex < docLen{
+		if parseIndex == docLen - 1 && b[parseIndex] == 0{
+			return docLen,parseIndex,nil
+		}
 		//读取类型
 		btype := BsonType(b[parseIndex])
 		parseIndex++
@@ -80,26 +84,30 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 			}
 		}
 
-		if parseIndex == docLen - 1 && b[parseIndex] == 0{
-			break
-		}
 	}
-	return docLen,parseIndex,nil
+	return docLen,parseIndex,ErrInvalidBSON
 }
 
 //数组结构解析和文档结构解析差不多，将数组的索引号设定为docment的key
 func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docLen,parseIndex int,err error)  {
+	if len(b) <= 4{
+		return 0,0,ErrBadBSONDocLen
+	}
 	//文档长度
 	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
+	if docLen < 5 || docLen > len(b){
 		return docLen,0,ErrBadBSONDocLen
 	}
+	b = b[:docLen]
 	parseIndex = 4
 	keyName := ""
 	//读取元素
 	//每个元素为一个类型+字段名+值组成,字段名为数组的索引序号
 	var element *DxValue
 	for parseIndex < docLen{
+		if parseIndex == docLen - 1 && b[parseIndex] == 0{
+			return docLen,parseIndex,nil
+		}
 		btype := BsonType(b[parseIndex])
 		parseIndex++
 		//读取字段,cstring,ansic
@@ -148,11 +156,8 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 				return docLen,parseIndex + parseidx,err
 			}
 		}
-		if parseIndex == docLen - 1 && b[parseIndex] == 0{
-			break
-		}
 	}
-	return docLen,parseIndex,nil
+	return docLen,parseIndex,ErrInvalidBSON
 }
 
 func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueLen,parseIndex int,err error)  {
-- 
2.43.0


From a4d29dee4299410ee8010f3e4558bcb6e66cafc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:44 +0000
Subject: [PATCH 25/69] fix: BSON binaries decode to their data and sub type,
 cut values are errors

---
 bson_parse.go | 59 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 2033c31..17b5cd3 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -161,6 +161,24 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 }
 
 func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueLen,parseIndex int,err error)  {
+	fixedLen := 0
+	switch btype {
+	case BSON_Double,BSON_DateTime,BSON_Timestamp,BSON_Int64:
+		fixedLen = 8
+	case BSON_String,BSON_Int32:
+		fixedLen = 4
+	case BSON_Binary:
+		fixedLen = 5
+	case BSON_ObjectID:
+		fixedLen = 12
+	case BSON_Boolean:
+		fixedLen = 1
+	case BSON_Decimal128:
+		fixedLen = 16
+	}
+	if len(b) < fixedLen{
+		return 0,0,ErrInvalidBSON
+	}
 	switch btype {
 	case BSON_Double:
 		u64 := binary.LittleEndian.Uint64(b[:8])
@@ -171,6 +189,9 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		valueLen = int(binary.LittleEndian.Uint32(b[:4]))
 		parseIndex += 4
 		start := parseIndex
+		if valueLen < 1 || valueLen > len(b) - start{
+			return valueLen,parseIndex,ErrInvalidBSON
+		}
 		parseIndex += valueLen
 		//由于会多写一个字符串结束符0，所以，实际长度应该减去1
 		if shareBinary{
@@ -179,35 +200,37 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 			value.SetString(string(b[start:parseIndex - 1]))
 		}
 	case BSON_Binary:
-		value.DataType = VT_ExBinary
-		value.ExtType = uint8(btype)
 		//先读取长度
 		valueLen = int(binary.LittleEndian.Uint32(b[:4]))
 		parseIndex = 4
 		//子类型
 		b = b[parseIndex:]
 		subType := b[0]
-		if subType == 2{
-			parseIndex ++
-			b = b[parseIndex:]
-			//再重新处理一遍
-			valueLen = int(binary.LittleEndian.Uint32(b[:4]))
-			parseIndex += 4
-			b = b[parseIndex:]
-			if valueLen > len(b){
+		if valueLen > len(b) - 1{
+			return valueLen,parseIndex,ErrInvalidBSON
+		}
+		//VT_ExBinary要将subType带上
+		b = b[:valueLen + 1]
+		parseIndex += valueLen + 1
+		switch subType {
+		case uint8(BinaryGeneric):
+			value.Reset(VT_Binary)
+			b = b[1:]
+		case uint8(BinaryBinaryOld):
+			//旧格式，数据前还有一个长度
+			if valueLen < 4 || int(binary.LittleEndian.Uint32(b[1:5])) != valueLen - 4{
 				return valueLen,parseIndex,ErrInvalidBSON
 			}
-			value.DataType = VT_Binary
-			value.ExtType = 0
-		}else{
-			//VT_ExBinary要将subType带上
-			valueLen ++
+			value.Reset(VT_Binary)
+			b = b[5:]
+		default:
+			value.Reset(VT_ExBinary)
+			value.ExtType = uint8(btype)
 		}
-		parseIndex += valueLen
 		if shareBinary{
-			value.SetBinary(b[:valueLen],false)
+			value.fbinary = b
 		}else {
-			value.SetBinary(b[:valueLen],true)
+			value.fbinary = append([]byte{},b...)
 		}
 	case BSON_Undefined:
 	case BSON_ObjectID:
-- 
2.43.0


From 56146dd148f9149502bc8724e42fcb1352b6621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:45 +0000
Subject: [PATCH 26/69] fix: negative BSON int32 values keep their sign

---
 bson_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bson_parse.go b/bson_parse.go
index 17b5cd3..7f164cb 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -260,7 +260,7 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 	case BSON_Symbol:
 	case BSON_CodeWithScope:
 	case BSON_Int32:
-		value.SetInt(int64(binary.LittleEndian.Uint32(b[:4])))
+		value.SetInt(int64(int32(binary.LittleEndian.Uint32(b[:4]))))
 		return 4,4,nil
 	case BSON_Timestamp:
 		//64 位值 前4个字节是一个增量，后4个字节是一个时间戳。
-- 
2.43.0


From c48ed061d7b61ad22afc7f825c562d4cab895aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:46 +0000
Subject: [PATCH 27/69] fix: BSON element types that cannot be decoded are
 errors instead of garbage

---
 bson_parse.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 7f164cb..45b48f7 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -232,7 +232,6 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		}else {
 			value.fbinary = append([]byte{},b...)
 		}
-	case BSON_Undefined:
 	case BSON_ObjectID:
 		//12字节
 		value.DataType = VT_Binary
@@ -252,13 +251,8 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		vunix := time.Duration(binary.LittleEndian.Uint64(b[:8])) * time.Millisecond
 		value.SetTime(time.Date(1970,1,1,0,0,0,0,time.UTC).Add(vunix))
 		return 8,8,nil
-	case BSON_Null:
+	case BSON_Null,BSON_Undefined,BSON_MinKey,BSON_MaxKey:
 		//啥都不干
-	case BSON_Regex:
-	case BSON_DBPointer:
-	case BSON_JavaScript:
-	case BSON_Symbol:
-	case BSON_CodeWithScope:
 	case BSON_Int32:
 		value.SetInt(int64(int32(binary.LittleEndian.Uint32(b[:4]))))
 		return 4,4,nil
@@ -276,8 +270,9 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		value.ExtType = uint8(btype)
 		value.SetBinary(b[:16],!shareBinary)
 		return 16,16,nil
-	case BSON_MinKey:
-	case BSON_MaxKey:
+	default:
+		//不支持的类型
+		err = ErrInvalidBSON
 	}
 	return
 }
-- 
2.43.0


From f51464bda1e73349739e2d7d9065805f337fd317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:46 +0000
Subject: [PATCH 28/69] fix: single floats, nan and inf are written to BSON as
 doubles

---
 bson_parse.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 45b48f7..12d36db 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -412,8 +412,11 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 			}
 		}
 	case VT_Float,VT_Double:
-		u64 := *(*int64)(unsafe.Pointer(&v.simpleV[0]))
-		dst = putLittI64(u64,dst)
+		dst = putLittI64(int64(math.Float64bits(v.Double())),dst)
+	case VT_NAN:
+		dst = putLittI64(int64(math.Float64bits(math.NaN())),dst)
+	case VT_INF:
+		dst = putLittI64(int64(math.Float64bits(math.Inf(1))),dst)
 	case VT_DateTime:
 		unixMillisecond := int64(v.GoTime().Sub(time.Date(1970,1,1,0,0,0,0,time.UTC))/time.Millisecond)
 		dst = putLittI64(unixMillisecond,dst)
@@ -475,7 +478,7 @@ func writeBsonElementType(element *DxValue,dst []byte)[]byte  {
 				dst = append(dst,byte(BSON_Int32))
 			}
 		}
-	case VT_Float,VT_Double:
+	case VT_Float,VT_Double,VT_NAN,VT_INF:
 		dst = append(dst,byte(BSON_Double))
 	case VT_DateTime:
 		dst = append(dst,byte(BSON_DateTime))
-- 
2.43.0


From 08eada0ed68b475b1bc0cd9043e75669fe8958d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:27 +0000
Subject: [PATCH 29/69] fix: unsigned struct fields convert instead of
 panicking

---
 reflect_parse.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index ec0bfd0..f3db3c4 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -355,9 +355,10 @@ func (v *DxValue)SetValue(value interface{})  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						v.SetKeyValue(sfield.Name,valueTrue)
@@ -611,9 +612,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						newv.SetKeyValue(sfield.Name,valueTrue)
@@ -841,9 +843,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 					fv = fv.Elem()
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						newv.SetKeyValue(sfield.Name,valueTrue)
-- 
2.43.0


From 37a8ffd65e8bf6b6e483cbda68fc1e21f4ec3a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:28 +0000
Subject: [PATCH 30/69] fix: SetValue with bytes or a time sets the kind of the
 value

---
 reflect_parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index f3db3c4..15e3b36 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -242,8 +242,10 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *bool:
 		v.SetBool(*realv)
 	case time.Time:
+		v.Reset(VT_DateTime)
 		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
 	case *time.Time:
+		v.Reset(VT_DateTime)
 		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
 	case float32:
 		v.SetFloat(realv)
@@ -254,8 +256,10 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *float64:
 		v.SetDouble(*realv)
 	case []byte:
+		v.Reset(VT_Binary)
 		v.SetBinary(realv,true)
 	case *[]byte:
+		v.Reset(VT_Binary)
 		v.SetBinary(*realv,true)
 	case map[string]interface{}:
 		v.Reset(VT_Object)
-- 
2.43.0


From 1603c0fe8f7285a6a5157f6ab752295ad6d65da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:28 +0000
Subject: [PATCH 31/69] fix: nil entries, elements and pointers convert to null
 instead of vanishing or panicking

---
 reflect_parse.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 15e3b36..a0d5092 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -325,6 +325,7 @@ func (v *DxValue)SetValue(value interface{})  {
 		//判断一下是否是结构体
 		reflectv := reflect.ValueOf(value)
 		if !reflectv.IsValid(){
+			v.Reset(VT_NULL)
 			return
 		}
 		if reflectv.Type().Implements(ValueMarshalerType){
@@ -376,7 +377,9 @@ func (v *DxValue)SetValue(value interface{})  {
 				case reflect.String:
 					v.SetKeyCached(sfield.Name,VT_String,cache).SetString(fv.String())
 				default:
-					if fv.CanInterface(){
+					if !fv.IsValid(){
+						v.SetKeyValue(sfield.Name,valueNull)
+					}else if fv.CanInterface(){
 						fvtp := fv.Type()
 						if fvtp.Implements(ValueMarshalerType){
 							fv.Interface().(DxValueMarshaler).EncodeToDxValue(v.SetKeyCached(sfield.Name,VT_Int,cache))
@@ -427,7 +430,9 @@ func (v *DxValue)SetValue(value interface{})  {
 				case reflect.String:
 					v.SetKeyCached(kv.String(),VT_String,cache).SetString(rvalue.String())
 				default:
-					if rvalue.CanInterface(){
+					if !rvalue.IsValid(){
+						v.SetKeyValue(kv.String(),valueNull)
+					}else if rvalue.CanInterface(){
 						rvType := rvalue.Type()
 						if rvType.Implements(ValueMarshalerType){
 							rvalue.Interface().(DxValueMarshaler).EncodeToDxValue(v.SetKeyCached(kv.String(),VT_Int,cache))
@@ -589,6 +594,7 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 		//判断一下是否是结构体
 		reflectv := reflect.ValueOf(value)
 		if !reflectv.IsValid(){
+			v.SetKeyValue(Name,valueNull)
 			return
 		}
 		if reflectv.Type().Implements(ValueMarshalerType){
@@ -633,7 +639,9 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 				case reflect.String:
 					newv.SetKeyCached(sfield.Name,VT_String,cache).SetString(fv.String())
 				default:
-					if fv.CanInterface(){
+					if !fv.IsValid(){
+						newv.SetKeyValue(sfield.Name,valueNull)
+					}else if fv.CanInterface(){
 						newv.SetKeyvalue(sfield.Name,fv.Interface(),cache)
 					}
 				}
@@ -674,7 +682,9 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 				case reflect.String:
 					newv.SetKeyCached(kv.String(),VT_String,cache).SetString(rvalue.String())
 				default:
-					if rvalue.CanInterface(){
+					if !rvalue.IsValid(){
+						newv.SetKeyValue(kv.String(),valueNull)
+					}else if rvalue.CanInterface(){
 						newv.SetKeyvalue(kv.String(),rvalue.Interface(),cache)
 					}
 				}
@@ -826,6 +836,7 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 		//判断一下是否是结构体
 		reflectv := reflect.ValueOf(value)
 		if !reflectv.IsValid(){
+			v.SetIndexValue(idx,valueNull)
 			return
 		}
 		rtype := reflectv.Type()
@@ -864,7 +875,9 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 				case reflect.String:
 					newv.SetKeyCached(sfield.Name,VT_String,cache).SetString(fv.String())
 				default:
-					if fv.CanInterface(){
+					if !fv.IsValid(){
+						newv.SetKeyValue(sfield.Name,valueNull)
+					}else if fv.CanInterface(){
 						newv.SetKeyvalue(sfield.Name,fv.Interface(),cache)
 					}
 				}
@@ -905,7 +918,9 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 				case reflect.String:
 					newv.SetKeyCached(kv.String(),VT_String,cache).SetString(rvalue.String())
 				default:
-					if rvalue.CanInterface(){
+					if !rvalue.IsValid(){
+						newv.SetKeyValue(kv.String(),valueNull)
+					}else if rvalue.CanInterface(){
 						newv.SetKeyvalue(kv.String(),rvalue.Interface(),cache)
 					}
 				}
-- 
2.43.0


From 2b219f7c1f7c2fd35061fddf66043024c2563913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 32/69] fix: an empty map converts to an empty object instead
 of vanishing

---
 reflect_parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index a0d5092..1c91b6d 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -396,6 +396,7 @@ func (v *DxValue)SetValue(value interface{})  {
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
 			if len(mapkeys) == 0{
+				v.Reset(VT_Object)
 				return
 			}
 			kv := mapkeys[0]
@@ -649,6 +650,7 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
 			if len(mapkeys) == 0{
+				v.SetKeyCached(Name,VT_Object,cache)
 				return
 			}
 			kv := mapkeys[0]
@@ -885,6 +887,7 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 		case reflect.Map:
 			mapkeys := reflectv.MapKeys()
 			if len(mapkeys) == 0{
+				v.SetIndexCached(idx,VT_Object,cache)
 				return
 			}
 			kv := mapkeys[0]
-- 
2.43.0


From ca684ee7ebb1fb0be55bc688b8873c640290b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 33/69] fix: named scalar types and string pointers convert
 instead of vanishing

---
 reflect_parse.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index 1c91b6d..0dbe317 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -186,6 +186,25 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 	return true
 }
 
+//自定义的基础类型（type MyInt int）以及基础类型的指针转换到对应的基础类型
+func scalarFromReflect(reflectv reflect.Value)(interface{},bool)  {
+	switch reflectv.Kind() {
+	case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
+		return reflectv.Int(),true
+	case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+		return reflectv.Uint(),true
+	case reflect.Float32:
+		return float32(reflectv.Float()),true
+	case reflect.Float64:
+		return reflectv.Float(),true
+	case reflect.Bool:
+		return reflectv.Bool(),true
+	case reflect.String:
+		return reflectv.String(),true
+	}
+	return nil,false
+}
+
 func (v *DxValue)SetValue(value interface{})  {
 	if v == valueNAN || v == valueINF || v == valueTrue || v == valueFalse || v == valueNull{
 		return
@@ -338,6 +357,10 @@ func (v *DxValue)SetValue(value interface{})  {
 			value.(DxValueMarshaler).EncodeToDxValue(v)
 			return
 		}*/
+		if scalar,ok := scalarFromReflect(reflectv);ok{
+			v.SetValue(scalar)
+			return
+		}
 		switch reflectv.Kind(){
 		case reflect.Struct:
 			tp := reflectv.Type()
@@ -605,6 +628,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 		if reflectv.Kind() == reflect.Ptr{
 			reflectv = reflectv.Elem()
 		}
+		if scalar,ok := scalarFromReflect(reflectv);ok{
+			v.SetKeyvalue(Name,scalar,cache)
+			return
+		}
 		switch reflectv.Kind(){
 		case reflect.Struct:
 			rtype := reflectv.Type()
@@ -850,6 +877,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			reflectv = reflectv.Elem()
 			rtype = reflectv.Type()
 		}
+		if scalar,ok := scalarFromReflect(reflectv);ok{
+			v.SetIndexvalue(idx,scalar,cache)
+			return
+		}
 		switch reflectv.Kind(){
 		case reflect.Struct:
 			newv := v.SetIndexCached(idx,VT_Object,cache)
-- 
2.43.0


From cc5c72ccc46bac91c1d93397252d12702373b8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 34/69] fix: ToStdValue fills slices of any capacity and
 element type

---
 reflect_parse.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 0dbe317..4dd8cd5 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -68,20 +68,13 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 		return false
 	}
 	n := arrvalue.Count()
-	if n == 0{
-		return false
-	}
-	var vtype reflect.Type
+	vtype := sliceValue.Type().Elem()
 	if sliceValue.Cap() == 0{
 		vslice := reflect.MakeSlice(sliceValue.Type(), n, n)
-		sv := vslice.Index(0)
-		vtype = sv.Type()
 		sliceValue.Set(vslice.Slice(0, n))
 	}else if sliceValue.Cap() >= n {
-		vtype = sliceValue.Slice(1,1).Field(0).Type()
 		sliceValue.Set(sliceValue.Slice(0, n))
 	} else if sliceValue.Len() < sliceValue.Cap() {
-		vtype = sliceValue.Slice(1,1).Field(0).Type()
 		sliceValue.Set(sliceValue.Slice(0, sliceValue.Cap()))
 	}
 
@@ -91,7 +84,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
-			sliceValue.Field(i).Interface().(DxValueUnMarshaler).DecodeFromDxValue(arrNode)
+			sliceValue.Index(i).Interface().(DxValueUnMarshaler).DecodeFromDxValue(arrNode)
 		}
 		return true
 	}
@@ -105,7 +98,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 				if i >= sliceValue.Len() {
 					sliceValue.Set(growSliceValue(sliceValue, n))
 				}
-				convertHandler(sliceValue.Field(i),arrNode)
+				convertHandler(sliceValue.Index(i),arrNode)
 			}
 			return true
 		}
@@ -117,7 +110,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
-			sliceValue.Field(i).Set(reflect.ValueOf(arrNode.GoTime()))
+			sliceValue.Index(i).Set(reflect.ValueOf(arrNode.GoTime()))
 		}
 		return true
 	}
@@ -1115,15 +1108,15 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 		reflectv = reflectv.Elem()
 		valueType := reflectv.Type()
 
-		if v.DataType != VT_Object{
-			return false
-		}
-		//反射处理,只处理结构体
+		//反射处理,只处理结构体和数组
 		switch valueType.Kind() {
 		case reflect.Struct:
+			if v.DataType != VT_Object{
+				return false
+			}
 			decode2reflectFromdxValue(reflectv,v,ignoreCase,valueType)
 		case reflect.Slice:
-			decodeArray2reflect(reflectv,v,ignoreCase)
+			return decodeArray2reflect(reflectv,v,ignoreCase)
 		default:
 			return false
 		}
-- 
2.43.0


From 6297bfcb5b3d3e4844568d705fe76e50758c75cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 35/69] fix: ToStdValue stores array elements in the given
 slice instead of dropping them

---
 reflect_parse.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 4dd8cd5..81f0a74 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -1054,43 +1054,53 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 		if v.DataType != VT_Array{
 			return false
 		}
+		idx := 0
 		v.Visit(func(Key string, arrvalue *DxValue) bool {
+			if idx >= len(value){
+				return false
+			}
 			switch arrvalue.DataType {
 			case VT_Object:
 				newvalue := make(map[string]interface{},arrvalue.Count())
 				arrvalue.ToStdValue(newvalue,ignoreCase)
-				value = append(value,newvalue)
+				value[idx] = newvalue
 			case VT_Array:
 				newvalue := make([]interface{},arrvalue.Count())
 				arrvalue.ToStdValue(newvalue,ignoreCase)
-				value = append(value,newvalue)
+				value[idx] = newvalue
 			case VT_String,VT_RawString:
-				value = append(value,arrvalue.String())
+				value[idx] = arrvalue.String()
 			case VT_Int:
-				value = append(value,arrvalue.Int())
+				value[idx] = arrvalue.Int()
 			case VT_DateTime:
-				value = append(value,arrvalue.GoTime())
+				value[idx] = arrvalue.GoTime()
 			case VT_Double:
-				value = append(value,arrvalue.Double())
+				value[idx] = arrvalue.Double()
 			case VT_Float:
-				value = append(value,arrvalue.Float())
+				value[idx] = arrvalue.Float()
 			case VT_Binary,VT_ExBinary:
-				value = append(value,arrvalue.Binary())
+				value[idx] = arrvalue.Binary()
 			case VT_True:
-				value = append(value,true)
+				value[idx] = true
 			case VT_False:
-				value = append(value,false)
+				value[idx] = false
 			case VT_NULL:
-				value = append(value,nil)
+				value[idx] = nil
 			}
+			idx++
 			return true
 		})
 	case []string:
 		if v.DataType != VT_Array{
 			return false
 		}
+		idx := 0
 		v.Visit(func(Key string, arrvalue *DxValue) bool {
-			value = append(value,arrvalue.String())
+			if idx >= len(value){
+				return false
+			}
+			value[idx] = arrvalue.String()
+			idx++
 			return true
 		})
 	default:
-- 
2.43.0


From 5e7bfe8c0117fb565c591733738433a2d977e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:16 +0000
Subject: [PATCH 36/69] fix: pointers, maps, interfaces and bytes inside Go
 data are converted instead of dropped

---
 reflect_parse.go | 94 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 91 insertions(+), 3 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 81f0a74..c06e54d 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -14,6 +14,9 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 			fld := valueType.Field(i)
 			if ignoreCase && strings.EqualFold(Key,fld.Name) || Key == fld.Name{
 				childreflectv := fvalue.Field(i)
+				if !childreflectv.CanSet(){
+					break
+				}
 				tp := fld.Type
 				if tp.Implements(ValueUnMarshalerType){
 					childreflectv.Interface().(DxValueUnMarshaler).DecodeFromDxValue(childvalue)
@@ -39,13 +42,17 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 				case reflect.Bool:
 					childreflectv.SetBool(childvalue.Bool())
 				case reflect.Slice:
-					decodeArray2reflect(childreflectv,childvalue,ignoreCase)
+					if !decodeArray2reflect(childreflectv,childvalue,ignoreCase){
+						decodeOther2reflect(childreflectv,childvalue,ignoreCase)
+					}
 				case reflect.Struct:
 					if tp == TimeType {
 						childreflectv.Set(reflect.ValueOf(childvalue.GoTime()))
 					}else{
 						decode2reflectFromdxValue(childreflectv,childvalue,ignoreCase,tp)
 					}
+				default:
+					decodeOther2reflect(childreflectv,childvalue,ignoreCase)
 				}
 				break
 			}
@@ -161,7 +168,9 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
-			decodeArray2reflect(sliceValue.Index(i),arrNode,ignoreCase)
+			if !decodeArray2reflect(sliceValue.Index(i),arrNode,ignoreCase){
+				decodeOther2reflect(sliceValue.Index(i),arrNode,ignoreCase)
+			}
 		}
 	case reflect.Struct:
 		for i := 0;i<n;i++{
@@ -173,6 +182,75 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 			decode2reflectFromdxValue(sliceValue.Index(i),arrNode,ignoreCase,vtype)
 		}
 
+	default:
+		for i := 0;i<n;i++{
+			if i >= sliceValue.Len() {
+				sliceValue.Set(growSliceValue(sliceValue, n))
+			}
+			if !decodeOther2reflect(sliceValue.Index(i),arrvalue.ValueByIndex(i),ignoreCase){
+				return false
+			}
+		}
+	}
+	return true
+}
+
+//指针，map，interface{}以及二进制
+func decodeOther2reflect(fvalue reflect.Value,value *DxValue,ignoreCase bool)bool  {
+	tp := fvalue.Type()
+	switch tp.Kind() {
+	case reflect.Ptr:
+		if value == nil || value.DataType == VT_NULL{
+			fvalue.Set(reflect.Zero(tp))
+			return true
+		}
+		ptrv := reflect.New(tp.Elem())
+		if !value.ToStdValue(ptrv.Interface(),ignoreCase){
+			return false
+		}
+		fvalue.Set(ptrv)
+	case reflect.Map:
+		if value == nil || value.DataType != VT_Object || tp.Key().Kind() != reflect.String{
+			return false
+		}
+		mapv := reflect.MakeMap(tp)
+		result := true
+		value.Visit(func(Key string, childvalue *DxValue) bool {
+			item := reflect.New(tp.Elem())
+			if tp.Elem().Kind() == reflect.Ptr || tp.Elem().Kind() == reflect.Map || tp.Elem().Kind() == reflect.Interface{
+				result = decodeOther2reflect(item.Elem(),childvalue,ignoreCase)
+			}else{
+				result = childvalue.ToStdValue(item.Interface(),ignoreCase)
+			}
+			if result{
+				mapv.SetMapIndex(reflect.ValueOf(Key).Convert(tp.Key()),item.Elem())
+			}
+			return result
+		})
+		if result{
+			fvalue.Set(mapv)
+		}
+		return result
+	case reflect.Interface:
+		if tp.NumMethod() > 0{
+			return false
+		}
+		if value == nil || value.DataType == VT_NULL{
+			fvalue.Set(reflect.Zero(tp))
+			return true
+		}
+		//借助通用数组来转换一个值
+		arr := DxValue{DataType: VT_Array,farr: []*DxValue{value}}
+		std := make([]interface{},1)
+		arr.ToStdValue(std,ignoreCase)
+		if std[0] != nil{
+			fvalue.Set(reflect.ValueOf(std[0]))
+		}
+	case reflect.Slice:
+		if tp.Elem().Kind() != reflect.Uint8 || value == nil || value.DataType != VT_Binary && value.DataType != VT_ExBinary{
+			return false
+		}
+		fvalue.SetBytes(append([]byte{},value.Binary()...))
 	default:
 		return false
 	}
@@ -1127,8 +1205,18 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 			decode2reflectFromdxValue(reflectv,v,ignoreCase,valueType)
 		case reflect.Slice:
 			return decodeArray2reflect(reflectv,v,ignoreCase)
+		case reflect.Int,reflect.Int64,reflect.Int8,reflect.Int16,reflect.Int32:
+			reflectv.SetInt(v.Int())
+		case reflect.Uint,reflect.Uint64,reflect.Uint8,reflect.Uint16,reflect.Uint32:
+			reflectv.SetUint(uint64(v.Int()))
+		case reflect.Float32,reflect.Float64:
+			reflectv.SetFloat(v.Double())
+		case reflect.Bool:
+			reflectv.SetBool(v.Bool())
+		case reflect.String:
+			reflectv.SetString(v.String())
 		default:
-			return false
+			return decodeOther2reflect(reflectv,v,ignoreCase)
 		}
 	}
 	return true
-- 
2.43.0


From 286dbd302372c8329b79f5305ed4e56a155cfa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:16 +0000
Subject: [PATCH 37/69] fix: SaveBinaryToFile opens the file for writing

---
 bin_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin_value.go b/bin_value.go
index 2b49c58..d6588ec 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -76,7 +76,7 @@ func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 
 func (v *DxValue)SaveBinaryToFile(fileName string)error  {
 	if  v.DataType == VT_Binary || v.DataType == VT_ExBinary{
-		if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC,0644);err == nil{
+		if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC | os.O_WRONLY,0644);err == nil{
 			defer file.Close()
 			if v.DataType == VT_Binary{
 				_,err := file.Write(v.fbinary)
-- 
2.43.0


From 6903bcd40e1914330fc1702154f8b16bc3bf2009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:02 +0000
Subject: [PATCH 38/69] fix: YAML blank lines, one character lines and a short
 last line are handled

---
 yamlparse.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/yamlparse.go b/yamlparse.go
index d909717..2d8d428 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -496,16 +496,12 @@ func (parser *yamlParser)parse()error  {
 				}
 			}
 		}
-		if curLineEnd - istart < 2{
-			istart = curLineEnd + 1
-			if istart == datalen{
-				break
+		lineData := bytes.TrimRight(parser.parseData[istart: curLineEnd]," \t\r")
+		if len(lineData) > spaceCount{
+			err := parser.parseLine(lineData,spaceCount)
+			if err != nil{
+				return err
 			}
-			continue
-		}
-		err := parser.parseLine(parser.parseData[istart: curLineEnd],spaceCount)
-		if err != nil{
-			return err
 		}
 
 		istart = curLineEnd + 1
-- 
2.43.0


From 4610a737703b67d3fbc3fd822b1b9bfbf18a158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:57 +0000
Subject: [PATCH 39/69] fix: YAML nesting follows the indentation of each line
 (C08/C09)

---
 dxvalue.go   |   2 +-
 yamlparse.go | 216 +++++++++++++++++++--------------------------------
 2 files changed, 79 insertions(+), 139 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 744d8c7..53c2017 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -330,7 +330,7 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 	parser.usecache = false
 	parser.root = v
 	parser.fparentCache = v.ValueCache()
-	parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,-1,v})
+	parser.fParsingValues = append(parser.fParsingValues,yamlNode{-1,v})
 	err := parser.parse()
 	freeyamlParser(parser)
 	return err
diff --git a/yamlparse.go b/yamlparse.go
index 2d8d428..959a3fb 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -12,13 +12,11 @@ func spaceTrim(r rune) bool {
 }
 
 type yamlNode struct {
-	isMapArrayNode	bool
 	spaceCount		int			//空格个数
 	v				*DxValue
 }
 
 type yamlParser struct {
-	ifFirstObjEle		bool				//是否是对象的第一个元素
 	lastOpifMerge		bool				//上一步操作是合并操作
 	usecache			bool
 	lastSpaceCount		int
@@ -100,6 +98,8 @@ func (parser *yamlParser)popLast(popCount int)  {
 func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
 	var currentValue *DxValue
 	isvalue := false
+	//键值所在的列，需要加上数组标记"-"的长度
+	keySpaceCount := spaceCount + 1 + len(dataLine) - len(bytes.TrimLeft(dataLine," "))
 	if len(dataLine) > 0{
 		if dataLine[0] != ' '{
 			//判定一下当前的空格数量
@@ -121,12 +121,15 @@ func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
 			parser.fparentCache = currentValue.ValueCache()
 		}
 		parser.root = currentValue
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,-1,currentValue})
+		parser.fParsingValues = append(parser.fParsingValues,yamlNode{-1,currentValue})
 	}else{
 		currentValue = parser.fParsingValues[lastIndex].v
 	}
 	isstrvalue := false
-	if currentValue.DataType == VT_Object{
+	if currentValue.DataType == VT_Object || currentValue.DataType == VT_NULL{
+		if currentValue.Count() > 0{
+			return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
+		}
 		currentValue.Reset(VT_Array)
 	}
 	if currentValue.DataType == VT_Array{
@@ -135,7 +138,7 @@ func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
 		}else{
 			currentValue = currentValue.SetIndexCached(-1,VT_Array,parser.fparentCache)
 		}
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
+		parser.fParsingValues = append(parser.fParsingValues,yamlNode{spaceCount,currentValue})
 	}else{
 		isstrvalue = true
 	}
@@ -153,18 +156,17 @@ func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
 				}
 				//map结构增加
 				currentValue.Reset(VT_Object)
-				//要加上数组标记"- "的长度2
-				parser.fParsingValues[len(parser.fParsingValues) - 1].isMapArrayNode = true
-				parser.ifFirstObjEle = true
-				//parser.fParsingValues[len(parser.fParsingValues) - 1].spaceCount = parser.fParsingValues[len(parser.fParsingValues) - 1].spaceCount + 2
+				merged,err := parser.mergeObject(currentValue,dataLine,k,v)
+				if err != nil || merged{
+					return err
+				}
 				if len(v) == 0{
 					currentValue = currentValue.SetKeyCached(string(k),VT_NULL,parser.fparentCache)
 				}else{
 					currentValue = currentValue.SetKeyCached(string(k),VT_String,parser.fparentCache)
 					parser.parseStringValue(currentValue,v,true)
 				}
-				parser.fParsingValues = append(parser.fParsingValues,yamlNode{true,spaceCount,currentValue})
-
+				parser.fParsingValues = append(parser.fParsingValues,yamlNode{keySpaceCount,currentValue})
 			}
 		}
 	}
@@ -182,7 +184,7 @@ func (parser *yamlParser)parseLine(lineData []byte,spaceCount int)error  {
 
 	//在中间出现了#注释，需要前面有一个空格，有空格的就认为后面是注释
 	lastIndex := bytes.Index(dataLine,commetTag)
-	if lastIndex > 1{
+	if lastIndex > 0{
 		dataLine = dataLine[:lastIndex]
 		if len(dataLine) == 0{
 			//注释不处理
@@ -192,32 +194,21 @@ func (parser *yamlParser)parseLine(lineData []byte,spaceCount int)error  {
 
 
 	isArray := dataLine[0] == '-'
-	lastIndex = len(parser.fParsingValues) - 1
-	lastSpaceCount := parser.lastSpaceCount
-	if parser.ifFirstObjEle && lastIndex >= 0{
-		if parser.fParsingValues[lastIndex].isMapArrayNode{ // - name: //这种数组和object集合的
-			lastSpaceCount += 2
+	//将不是当前行上级的节点弹出，数组可以和它所属的键对齐
+	l := len(parser.fParsingValues)
+	popCount := 0
+	for i := l - 1;i>0;i--{
+		node := parser.fParsingValues[i]
+		if node.spaceCount < spaceCount{
+			break
 		}
-	}
-
-	if  lastSpaceCount > spaceCount{
-		//大于的时候，需要将上一个值写入的弹出,然后还需要将值的parent弹出
-		parser.popLast(2)
-		//然后查找和当前的spaceCount相同的组
-		l := len(parser.fParsingValues)
-		popcount := l
-		for i := l - 1;i>0;i--{
-			if parser.fParsingValues[i].spaceCount < spaceCount{
-				break
-			}else{
-				parser.fParsingValues[i].v = nil
-				popcount--
-			}
+		if isArray && node.spaceCount == spaceCount && parser.fParsingValues[i-1].v.DataType == VT_Object &&
+			(node.v.DataType == VT_Array || node.v.DataType == VT_NULL || node.v.DataType == VT_Object && node.v.Count() == 0){
+			break
 		}
-		parser.fParsingValues = parser.fParsingValues[:popcount]
-	}else if lastSpaceCount == spaceCount{
-		parser.popLast(1)
+		popCount++
 	}
+	parser.popLast(popCount)
 	var err error
 	if isArray{
 		err = parser.parseArray(dataLine[1:],spaceCount)
@@ -260,7 +251,6 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 	var currentValue *DxValue
 	//非数组
 	lastIndex := len(parser.fParsingValues) - 1
-	lastSpaceCount := parser.lastSpaceCount
 	if lastIndex < 0{
 		if parser.usecache{
 			parser.fparentCache = getCache()
@@ -270,131 +260,81 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 			parser.fparentCache = currentValue.ValueCache()
 		}
 		parser.root = currentValue
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,-1,currentValue})
+		parser.fParsingValues = append(parser.fParsingValues,yamlNode{-1,currentValue})
 	}else{
-		if parser.ifFirstObjEle && parser.fParsingValues[lastIndex].isMapArrayNode{ // - name: //这种数组和object集合的
-			lastSpaceCount += 2
-		}
 		currentValue = parser.fParsingValues[lastIndex].v
 	}
-	if parser.ifFirstObjEle{
-		parser.ifFirstObjEle = false
-	}
 
 	key,value,hasKeySplit := parser.splitKv(dataLine)
 
-	if lastIndex < 0{
-		if len(key) == 0 || !hasKeySplit{
+	if len(key) == 0 || !hasKeySplit{
+		if lastIndex <= 0 || currentValue.Count() > 0 || currentValue.DataType == VT_Array{
 			return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
 		}
+		dataLine = bytes.TrimFunc(dataLine,spaceTrim)
+		if currentValue.DataType == VT_Object || currentValue.DataType == VT_NULL{
+			//值写在了键的下一行
+			parser.parseStringValue(currentValue,dataLine,true)
+		}else{
+			//上一行字符串的延续
+			currentValue.SetString(currentValue.String() + " " + string(dataLine))
+		}
+		return nil
 	}
-	if  lastSpaceCount == spaceCount{
-		//和上一步是同一级，判定一下是否具备KV结构
-		if len(key) == 0 || !hasKeySplit{
+	if currentValue.DataType != VT_Object{
+		if currentValue.Count() > 0{
 			return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
 		}
-		//判定一下key是否是需要归并的
-		merged,err := parser.mergeObject(currentValue,dataLine,key,value)
-		if err != nil{
-			return err
-		}
-		if !merged{
-			if value != nil{
-				currentValue = currentValue.SetKeyCached(string(key),VT_String,parser.fparentCache)
-				parser.parseStringValue(currentValue,value,true)
-			}else{
-				//是一个新的对象
-				currentValue = currentValue.SetKeyCached(string(key),VT_Object,parser.fparentCache)
-			}
-		}
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
-	}else if spaceCount > lastSpaceCount{
-		//子集
-		if len(key) == 0{
-			//字符串
-			if currentValue.DataType == VT_Object || currentValue.DataType == VT_Array{
-				return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
-			}
-			oldstr := currentValue.String()
-			currentValue.SetString(oldstr + " :"+string(value))
-			return nil
-		}
-		if currentValue.DataType != VT_Object{
-			currentValue.Reset(VT_Object)
-		}
-		merged,err := parser.mergeObject(currentValue,dataLine,key,value)
-		if err != nil{
-			return err
-		}
-		if merged{ //合并
-			parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
-			return nil
-		}
+		currentValue.Reset(VT_Object)
+	}
+	merged,err := parser.mergeObject(currentValue,dataLine,key,value)
+	if err != nil || merged{
+		return err
+	}
 
-		vkey := string(key)
-		if len(value) == 0{
-			currentValue = currentValue.SetKeyCached(vkey,VT_Object,parser.fparentCache)
-		}else{
-			//判定一下是否是引用界定值
-			if value[0] != '&'{
-				if value[0] == '*'{ //引用其他值信息
-					usekey := DxCommonLib.FastByte2String(value[1:])
-					usecache := parser.getUseage(usekey)
-					if usecache != nil{
-						 newvalue := usecache.clone(parser.fparentCache)
-						 currentValue.SetKeyValue(vkey,newvalue)
-						 currentValue = newvalue
-					}else{
-						currentValue = currentValue.SetKeyCached(vkey,VT_String,parser.fparentCache)
-						currentValue.SetString(string(value))
-					}
+	vkey := string(key)
+	if len(value) == 0{
+		currentValue = currentValue.SetKeyCached(vkey,VT_Object,parser.fparentCache)
+	}else{
+		//判定一下是否是引用界定值
+		if value[0] != '&'{
+			if value[0] == '*'{ //引用其他值信息
+				usekey := DxCommonLib.FastByte2String(value[1:])
+				usecache := parser.getUseage(usekey)
+				if usecache != nil{
+					 newvalue := usecache.clone(parser.fparentCache)
+					 currentValue.SetKeyValue(vkey,newvalue)
+					 currentValue = newvalue
 				}else{
 					currentValue = currentValue.SetKeyCached(vkey,VT_String,parser.fparentCache)
-					parser.parseStringValue(currentValue,value,true)
+					currentValue.SetString(string(value))
 				}
 			}else{
-				//引用的，判定有没有空格，如果有空格的是字符串引用，否则就是对象引用
-				refKey := ""
-				isrefObject := true
-				spaceindex := bytes.IndexByte(value[1:],' ')
-				if spaceindex > 0{
-					refKey = string(value[1:spaceindex+1])
-					value = bytes.TrimFunc(value[spaceindex+1:],spaceTrim)
-					isrefObject = len(value) == 0
-				}else{
-					refKey = string(value[1:])
-				}
-				if isrefObject{
-					currentValue = currentValue.SetKeyCached(vkey,VT_Object,parser.fparentCache)
-				}else{
-					currentValue = currentValue.SetKeyCached(vkey,VT_String,parser.fparentCache)
-					parser.parseStringValue(currentValue,value,true)
-				}
-				parser.setCachedUseage(refKey,currentValue)
+				currentValue = currentValue.SetKeyCached(vkey,VT_String,parser.fparentCache)
+				parser.parseStringValue(currentValue,value,true)
 			}
-		}
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
-	}else{
-		//完成闭包处理，回到上一个对象处理结构
-		if len(key) == 0 || !hasKeySplit || currentValue.DataType != VT_Object{
-			return fmt.Errorf("无效的Yaml格式：%s",string(dataLine))
-		}
-		if len(value) == 0{
-			currentValue = currentValue.SetKeyCached(string(key),VT_Object,parser.fparentCache)
 		}else{
-			merged,err := parser.mergeObject(currentValue,dataLine,key,value)
-			if err != nil{
-				return err
+			//引用的，判定有没有空格，如果有空格的是字符串引用，否则就是对象引用
+			refKey := ""
+			isrefObject := true
+			spaceindex := bytes.IndexByte(value[1:],' ')
+			if spaceindex > 0{
+				refKey = string(value[1:spaceindex+1])
+				value = bytes.TrimFunc(value[spaceindex+1:],spaceTrim)
+				isrefObject = len(value) == 0
+			}else{
+				refKey = string(value[1:])
 			}
-			if !merged{ //合并
-				currentValue = currentValue.SetKeyCached(string(key),VT_String,parser.fparentCache)
-				//currentValue.SetString(string(value))
+			if isrefObject{
+				currentValue = currentValue.SetKeyCached(vkey,VT_Object,parser.fparentCache)
+			}else{
+				currentValue = currentValue.SetKeyCached(vkey,VT_String,parser.fparentCache)
 				parser.parseStringValue(currentValue,value,true)
 			}
+			parser.setCachedUseage(refKey,currentValue)
 		}
-		parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,spaceCount,currentValue})
 	}
-
+	parser.fParsingValues = append(parser.fParsingValues,yamlNode{spaceCount,currentValue})
 	return nil
 }
 
-- 
2.43.0


From 50c87ddadf2332cc4a78b8164b76ddcd5f45a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:58 +0000
Subject: [PATCH 40/69] fix: a YAML anchor whose value follows on the next
 lines is registered (C09)

---
 yamlparse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index 959a3fb..22b2aeb 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -390,7 +390,9 @@ func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bo
 				parser.parseStringValue(target,value,false) //继续解析
 			}
 		}else {
-			target.SetString("")
+			//值在后续的行中
+			parser.setCachedUseage(string(vstr[1:]),target)
+			target.Reset(VT_Object)
 		}
 	}else if vstr[0] == '*' {
 		spaceIndex := bytes.IndexByte(vstr,' ')
-- 
2.43.0


From 165aecfa69a3bd328f3d39952a696a0c91a12fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:59 +0000
Subject: [PATCH 41/69] fix: YAML integers beyond 2^53 keep their exact value
 (C08)

---
 yamlparse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index 22b2aeb..4515ebe 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/suiyunonghen/DxCommonLib"
+	"strconv"
 	"sync"
 )
 
@@ -365,6 +366,11 @@ func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bo
 		return
 	}
 	if vfloat,err := DxCommonLib.ParseFloat(DxCommonLib.FastByte2String(vstr));err == nil{
+		if vint,err := strconv.ParseInt(string(vstr),10,64);err == nil && (vint > 1 << 53 || vint < -1 << 53){
+			//double无法精确表示的整数
+			target.SetInt(vint)
+			return
+		}
 		target.SetDouble(vfloat)
 		return
 	}
-- 
2.43.0


From 8de5f605fc93b1b80a90379ef2e631e1d1913c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:59 +0000
Subject: [PATCH 42/69] fix: a YAML document without content decodes to an
 empty object, not nil (C07/C08)

---
 yamlparse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index 4515ebe..3309f99 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -471,6 +471,14 @@ func NewValueFromYaml(b []byte,usecache bool)(*DxValue,error)  {
 	}
 	result := parser.root
 	freeyamlParser(parser)
+	if result == nil{
+		//没有内容
+		if usecache{
+			result = getCache().getValue(VT_Object)
+		}else{
+			result = NewObject(true)
+		}
+	}
 	return result,nil
 }
 
-- 
2.43.0


From b0224109580069022121428888ee4038ff2784e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:00 +0000
Subject: [PATCH 43/69] fix: LoadFromYaml keeps the indentation of the first
 line and clears on error (C08/C26)

---
 dxvalue.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 53c2017..4a94e0c 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -315,11 +315,10 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 		}
 		break
 	}
-	b = b[spacount:]
-	if len(b) == 0{
+	if spacount == len(b){
 		return nil
 	}
-	if b[0] == '-'{
+	if b[spacount] == '-'{
 		v.Reset(VT_Array)
 	}else{
 		v.Reset(VT_Object)
@@ -333,6 +332,9 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 	parser.fParsingValues = append(parser.fParsingValues,yamlNode{-1,v})
 	err := parser.parse()
 	freeyamlParser(parser)
+	if err != nil{
+		v.Clear()
+	}
 	return err
 }
 
-- 
2.43.0


From 34a86ec592ab2ca66c6c483b6b86c3fe684f569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 44/69] fix: Clear drops the subtype of the data it drops
 (C11/C26)

---
 dxvalue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dxvalue.go b/dxvalue.go
index 4a94e0c..20a3e81 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -198,6 +198,7 @@ func (v *DxValue)Clear()  {
 	if v.ownercache != nil{
 		v.ownercache.Reset(false) //根不回收
 	}
+	v.ExtType = 0
 	v.fobject.keysUnescaped = false
 	switch v.DataType {
 	case VT_Object:
-- 
2.43.0


From 342b3c6b4309299eb63bcbeb814b9cf8993886c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 45/69] fix: a YAML mapping set after a merge key replaces the
 merged one (C09)

---
 yamlparse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index 3309f99..1bae7c0 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -296,6 +296,7 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 	vkey := string(key)
 	if len(value) == 0{
 		currentValue = currentValue.SetKeyCached(vkey,VT_Object,parser.fparentCache)
+		currentValue.Reset(VT_Object) //可能是合并来的，以自己的为准
 	}else{
 		//判定一下是否是引用界定值
 		if value[0] != '&'{
@@ -328,6 +329,7 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 			}
 			if isrefObject{
 				currentValue = currentValue.SetKeyCached(vkey,VT_Object,parser.fparentCache)
+				currentValue.Reset(VT_Object)
 			}else{
 				currentValue = currentValue.SetKeyCached(vkey,VT_String,parser.fparentCache)
 				parser.parseStringValue(currentValue,value,true)
-- 
2.43.0


From dfc37092b1021e5530e22bb614edbb4f5f770e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:04 +0000
Subject: [PATCH 46/69] fix: a YAML key may contain colons (C08)

---
 yamlparse.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/yamlparse.go b/yamlparse.go
index 1bae7c0..eccefc9 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -343,18 +343,15 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 
 func (parser *yamlParser)splitKv(dataline []byte)(k,v []byte,bool2 bool)  {
 	dataline = bytes.TrimFunc(dataline,spaceTrim)
-	splitindex := bytes.IndexByte(dataline,':')
+	//必须有一个空格(或者在行尾)才算是kV结构
+	splitindex := bytes.Index(dataline,[]byte{':',' '})
 	if splitindex < 0{
-		return dataline,nil,false
-	}
-	if splitindex < len(dataline) - 1{ //必须有一个空格才算是kV结构
-		if dataline[splitindex + 1] == ' '{
-			return bytes.TrimFunc(dataline[:splitindex],spaceTrim),bytes.TrimFunc(dataline[splitindex+2:],spaceTrim),true
+		if len(dataline) == 0 || dataline[len(dataline)-1] != ':'{
+			return dataline,nil,false
 		}
-		return dataline,nil,false
-	}else{
-		return bytes.TrimFunc(dataline[:splitindex],spaceTrim),bytes.TrimFunc(dataline[splitindex+1:],spaceTrim),true
+		splitindex = len(dataline) - 1
 	}
+	return bytes.TrimFunc(dataline[:splitindex],spaceTrim),bytes.TrimFunc(dataline[splitindex+1:],spaceTrim),true
 }
 
 func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bool)  {
-- 
2.43.0


From b8e1c5a84cfcd696a1844ca8bb96b7e1883dbbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:19 +0000
Subject: [PATCH 47/69] fix: Clear leaves no true, false, nan or inf behind

---
 dxvalue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 20a3e81..e384664 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -213,6 +213,8 @@ func (v *DxValue)Clear()  {
 			v.farr[i] = nil
 		}
 		v.farr = v.farr[:0]
+	case VT_True,VT_False,VT_NAN,VT_INF: //这些类型没有空值
+		v.Reset(VT_NULL)
 	default:
 		v.farr = nil
 		v.fobject.strkvs = nil
-- 
2.43.0


From d762c3a193fe0d191662722fc39d93d582969b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:51 +0000
Subject: [PATCH 48/69] fix: an integer equals a float only when the values are
 the same (C17)

Integers beyond 2^53 were rounded before the comparison, so that two
different integers both equalled the same double.
---
 dxvalue.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index e384664..3a346d6 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -527,6 +527,11 @@ func (v *DxValue)MergeWith(value *DxValue,mergefunc MergeFunc)  {
 	}
 }
 
+//整数与浮点数精确比较，大于2^53的整数转换成浮点会丢失精度
+func intEqualFloat(i int64,f float64)bool  {
+	return float64(i) == f && f < 1<<63 && int64(f) == i
+}
+
 func (v *DxValue)Equal(value *DxValue)bool  {
 	if v == nil && value == nil{
 		return true
@@ -541,6 +546,12 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 			return v.String() == value.String()
 		}
 		if v.DataType >= VT_Int && v.DataType <= VT_Double && value.DataType >= VT_Int && value.DataType <= VT_Double{
+			if v.DataType == VT_Int{
+				return intEqualFloat(v.Int(),value.Double())
+			}
+			if value.DataType == VT_Int{
+				return intEqualFloat(value.Int(),v.Double())
+			}
 			return v.Double() == value.Double()
 		}
 		return false
-- 
2.43.0


From eb8e7237666a429713f280c0629a987405aae731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:29 +0000
Subject: [PATCH 49/69] fix: self-converting types convert themselves wherever
 they are nested (C22)

A pointer receiver was called with a nil pointer or not at all when the type
was a struct field or slice element, and fields of a scalar kind or behind a
pointer were stored without their own conversion.
---
 dxvalue.go       |  3 +++
 reflect_parse.go | 67 +++++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 66 insertions(+), 4 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 3a346d6..e5b9126 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1299,6 +1299,9 @@ func getRealValue(v *reflect.Value)*reflect.Value  {
 		return nil
 	}
 	if v.Kind() == reflect.Ptr{
+		if marshalerOf(*v) != nil{
+			return v
+		}
 		if !v.IsNil(){
 			va := v.Elem()
 			return getRealValue(&va)
diff --git a/reflect_parse.go b/reflect_parse.go
index c06e54d..2d7c917 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -18,8 +18,8 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 					break
 				}
 				tp := fld.Type
-				if tp.Implements(ValueUnMarshalerType){
-					childreflectv.Interface().(DxValueUnMarshaler).DecodeFromDxValue(childvalue)
+				if unmarshaler := unmarshalerOf(childreflectv,childvalue);unmarshaler != nil{
+					unmarshaler.DecodeFromDxValue(childvalue)
 					break
 				}
 				vhandler,ok := structTypePool.Load(tp)
@@ -61,6 +61,26 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 	})
 }
 
+//自转换类型的转换接口，空指针会先分配，null对应空指针
+func unmarshalerOf(fvalue reflect.Value,value *DxValue)DxValueUnMarshaler  {
+	tp := fvalue.Type()
+	if tp.Implements(ValueUnMarshalerType){
+		if tp.Kind() == reflect.Ptr && fvalue.IsNil(){
+			if value == nil || value.DataType == VT_NULL{
+				return nil
+			}
+			fvalue.Set(reflect.New(tp.Elem()))
+		}else if tp.Kind() == reflect.Interface && fvalue.IsNil(){
+			return nil
+		}
+		return fvalue.Interface().(DxValueUnMarshaler)
+	}
+	if fvalue.CanAddr() && reflect.PtrTo(tp).Implements(ValueUnMarshalerType){
+		return fvalue.Addr().Interface().(DxValueUnMarshaler)
+	}
+	return nil
+}
+
 func growSliceValue(v reflect.Value, n int) reflect.Value {
 	diff := n - v.Len()
 	if diff > 256 {
@@ -85,13 +105,17 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 		sliceValue.Set(sliceValue.Slice(0, sliceValue.Cap()))
 	}
 
-	if vtype.Implements(ValueUnMarshalerType){
+	if vtype.Implements(ValueUnMarshalerType) || reflect.PtrTo(vtype).Implements(ValueUnMarshalerType){
 		for i := 0;i<n;i++{
 			arrNode := arrvalue.ValueByIndex(i)
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
-			sliceValue.Index(i).Interface().(DxValueUnMarshaler).DecodeFromDxValue(arrNode)
+			if unmarshaler := unmarshalerOf(sliceValue.Index(i),arrNode);unmarshaler != nil{
+				unmarshaler.DecodeFromDxValue(arrNode)
+			}else{
+				sliceValue.Index(i).Set(reflect.Zero(vtype))
+			}
 		}
 		return true
 	}
@@ -257,6 +281,17 @@ func decodeOther2reflect(fvalue reflect.Value,value *DxValue,ignoreCase bool)boo
 	return true
 }
 
+//自转换类型的转换接口，空指针没有
+func marshalerOf(reflectv reflect.Value)DxValueMarshaler  {
+	if !reflectv.CanInterface() || !reflectv.Type().Implements(ValueMarshalerType){
+		return nil
+	}
+	if (reflectv.Kind() == reflect.Ptr || reflectv.Kind() == reflect.Interface) && reflectv.IsNil(){
+		return nil
+	}
+	return reflectv.Interface().(DxValueMarshaler)
+}
+
 //自定义的基础类型（type MyInt int）以及基础类型的指针转换到对应的基础类型
 func scalarFromReflect(reflectv reflect.Value)(interface{},bool)  {
 	switch reflectv.Kind() {
@@ -450,6 +485,10 @@ func (v *DxValue)SetValue(value interface{})  {
 			for i := 0;i < rtype.NumField();i++{
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
+				if marshaler := marshalerOf(fv);marshaler != nil{
+					marshaler.EncodeToDxValue(v.SetKeyCached(sfield.Name,VT_Int,cache))
+					continue
+				}
 				if fv.Kind() == reflect.Ptr{
 					fv = fv.Elem()
 				}
@@ -504,6 +543,10 @@ func (v *DxValue)SetValue(value interface{})  {
 			cache := v.ValueCache()
 			for _,kv = range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
+				if marshaler := marshalerOf(rvalue);marshaler != nil{
+					marshaler.EncodeToDxValue(v.SetKeyCached(kv.String(),VT_Int,cache))
+					continue
+				}
 				if rvalue.Kind() == reflect.Ptr{
 					rvalue = rvalue.Elem()
 				}
@@ -717,6 +760,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			for i := 0;i < rtype.NumField();i++{
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
+				if marshaler := marshalerOf(fv);marshaler != nil{
+					marshaler.EncodeToDxValue(newv.SetKeyCached(sfield.Name,VT_Int,cache))
+					continue
+				}
 				if fv.Kind() == reflect.Ptr{
 					fv = fv.Elem()
 				}
@@ -761,6 +808,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			newv := v.SetKeyCached(Name,VT_Object,cache)
 			for _,kv = range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
+				if marshaler := marshalerOf(rvalue);marshaler != nil{
+					marshaler.EncodeToDxValue(newv.SetKeyCached(kv.String(),VT_Int,cache))
+					continue
+				}
 				if rvalue.Kind() == reflect.Ptr{
 					rvalue = rvalue.Elem()
 				}
@@ -958,6 +1009,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			for i := 0;i < rtype.NumField();i++{
 				sfield := rtype.Field(i)
 				fv := reflectv.Field(i)
+				if marshaler := marshalerOf(fv);marshaler != nil{
+					marshaler.EncodeToDxValue(newv.SetKeyCached(sfield.Name,VT_Int,cache))
+					continue
+				}
 				if fv.Kind() == reflect.Ptr{
 					fv = fv.Elem()
 				}
@@ -1002,6 +1057,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			newv := v.SetIndexCached(idx,VT_Object,cache)
 			for _,kv = range mapkeys{
 				rvalue := reflectv.MapIndex(kv)
+				if marshaler := marshalerOf(rvalue);marshaler != nil{
+					marshaler.EncodeToDxValue(newv.SetKeyCached(kv.String(),VT_Int,cache))
+					continue
+				}
 				if rvalue.Kind() == reflect.Ptr{
 					rvalue = rvalue.Elem()
 				}
-- 
2.43.0


From 22cb45397dc3ae5ad26f6f0d206fb30cd7279b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:40 +0000
Subject: [PATCH 50/69] fix: registered types are converted behind pointers and
 in maps too (C22)

---
 reflect_parse.go | 11 +++++++++--
 struct_type.go   |  7 +++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 2d7c917..0ab8970 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -222,6 +222,10 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 //指针，map，interface{}以及二进制
 func decodeOther2reflect(fvalue reflect.Value,value *DxValue,ignoreCase bool)bool  {
 	tp := fvalue.Type()
+	if handler := typeMapFunc(tp);handler != nil{
+		handler(fvalue,value)
+		return true
+	}
 	switch tp.Kind() {
 	case reflect.Ptr:
 		if value == nil || value.DataType == VT_NULL{
@@ -229,7 +233,9 @@ func decodeOther2reflect(fvalue reflect.Value,value *DxValue,ignoreCase bool)boo
 			return true
 		}
 		ptrv := reflect.New(tp.Elem())
-		if !value.ToStdValue(ptrv.Interface(),ignoreCase){
+		if handler := typeMapFunc(tp.Elem());handler != nil{
+			handler(ptrv.Elem(),value)
+		}else if !value.ToStdValue(ptrv.Interface(),ignoreCase){
 			return false
 		}
 		fvalue.Set(ptrv)
@@ -241,7 +247,8 @@ func decodeOther2reflect(fvalue reflect.Value,value *DxValue,ignoreCase bool)boo
 		result := true
 		value.Visit(func(Key string, childvalue *DxValue) bool {
 			item := reflect.New(tp.Elem())
-			if tp.Elem().Kind() == reflect.Ptr || tp.Elem().Kind() == reflect.Map || tp.Elem().Kind() == reflect.Interface{
+			if tp.Elem().Kind() == reflect.Ptr || tp.Elem().Kind() == reflect.Map || tp.Elem().Kind() == reflect.Interface ||
+				typeMapFunc(tp.Elem()) != nil{
 				result = decodeOther2reflect(item.Elem(),childvalue,ignoreCase)
 			}else{
 				result = childvalue.ToStdValue(item.Interface(),ignoreCase)
diff --git a/struct_type.go b/struct_type.go
index 44975a2..9edc3cb 100644
--- a/struct_type.go
+++ b/struct_type.go
@@ -33,3 +33,10 @@ func RegisterTypeMapFunc(tp reflect.Type,handler StdValueFromDxValue)  {
 	structTypePool.Store(tp,handler)
 }
 
+//注册的类型转换函数
+func typeMapFunc(tp reflect.Type)StdValueFromDxValue  {
+	if handler,ok := structTypePool.Load(tp);ok && handler != nil{
+		return handler.(StdValueFromDxValue)
+	}
+	return nil
+}
-- 
2.43.0


From 6c506c3d640adac27ff2a4e030b8b42042dee3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:15 +0000
Subject: [PATCH 51/69] fix: a time given in another zone is stored as the
 instant it denotes (C23)

---
 dxvalue.go       |  2 +-
 reflect_parse.go | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index e5b9126..e79f5ff 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1091,7 +1091,7 @@ func (v *DxValue)SetTime(value time.Time)  {
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
-	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = float64(DxCommonLib.Time2DelphiTime(value))
+	*((*float64)(unsafe.Pointer(&v.simpleV[0]))) = float64(DxCommonLib.Time2DelphiTime(value.Local()))
 }
 
 func (v *DxValue)SetDelphiTime(value DxCommonLib.TDateTime)  {
diff --git a/reflect_parse.go b/reflect_parse.go
index 0ab8970..9359f79 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -375,10 +375,10 @@ func (v *DxValue)SetValue(value interface{})  {
 		v.SetBool(*realv)
 	case time.Time:
 		v.Reset(VT_DateTime)
-		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
+		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(realv.Local())))
 	case *time.Time:
 		v.Reset(VT_DateTime)
-		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
+		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(realv.Local())))
 	case float32:
 		v.SetFloat(realv)
 	case *float32:
@@ -670,9 +670,9 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 			v.SetKeyValue(Name,valueFalse)
 		}
 	case time.Time:
-		v.SetKeyCached(Name,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
+		v.SetKeyCached(Name,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv.Local())))
 	case *time.Time:
-		v.SetKeyCached(Name,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
+		v.SetKeyCached(Name,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv.Local())))
 	case float32:
 		v.SetKeyCached(Name,VT_Float,cache).SetFloat(realv)
 	case *float32:
@@ -925,9 +925,9 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 			v.SetIndexValue(idx,valueFalse)
 		}
 	case time.Time:
-		v.SetIndexCached(idx,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
+		v.SetIndexCached(idx,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv.Local())))
 	case *time.Time:
-		v.SetIndexCached(idx,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
+		v.SetIndexCached(idx,VT_DateTime,cache).SetDouble(float64(DxCommonLib.Time2DelphiTime(realv.Local())))
 	case float32:
 		v.SetIndexCached(idx,VT_Float,cache).SetFloat(realv)
 	case *float32:
-- 
2.43.0


From 3099995ce04e452f65cb2751ae6be516551cc17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:33 +0000
Subject: [PATCH 52/69] fix: JSON date literals denote their millisecond, also
 before 1970 (C23)

---
 jsonparse.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 1b1632a..629dbdb 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"time"
 	"unicode/utf16"
 	"unicode/utf8"
 )
@@ -438,6 +439,17 @@ func NewValueFromJson(b []byte,useCache bool,sharebinary bool)(*DxValue,error)
 	return v,nil
 }
 
+//parseJsonDate 解析Json的日期格式，不是日期则返回负数
+//本库输出的/Date(毫秒)/为准确的UTC毫秒数(1970年以前为负)，其他写法由DxCommonLib处理
+func parseJsonDate(s string)DxCommonLib.TDateTime  {
+	if strings.HasPrefix(s,"/Date(") && strings.HasSuffix(s,")/"){
+		if ms,err := strconv.ParseInt(s[6:len(s)-2],10,64);err == nil{
+			return DxCommonLib.Time2DelphiTime(time.Unix(ms/1000,ms%1000*int64(time.Millisecond)))
+		}
+	}
+	return DxCommonLib.ParserJsonTime(s)
+}
+
 func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
 	if len(b) == 0{
 		return nil,nil,&ErrorParseJson{
@@ -459,7 +471,7 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 		}
 		//先判断一下是否是Json的日期格式
 		var result *DxValue
-		dt := DxCommonLib.ParserJsonTime(ss)
+		dt := parseJsonDate(ss)
 		if dt < 0{
 			result = c.getValue(VT_RawString)
 			result.fstrvalue = ss
@@ -516,7 +528,7 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 			return tail, err
 		}
 		//先判断一下是否是Json的日期格式
-		dt := DxCommonLib.ParserJsonTime(ss)
+		dt := parseJsonDate(ss)
 		if dt < 0{
 			v.Reset(VT_RawString)
 			v.fstrvalue = ss
-- 
2.43.0


From 1a586f8982033994453f826fbd65922ae445a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:19 +0000
Subject: [PATCH 53/69] fix: copying a value into one of its own descendants
 copies the value as it was, and an array can be added to itself

---
 dxvalue.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index e79f5ff..2c013df 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -659,19 +659,22 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 		}
 		v.fobject.UnEscapestrs()
 		fromv.fobject.UnEscapestrs()
+		//来源可能包含v自身，先全部复制再增加
+		var kvs []strkv
 		for i := 0; i<len(fromv.fobject.strkvs);i++{
 			if v.fobject.indexByName(fromv.fobject.strkvs[i].K) >= 0{
 				continue
 			}
-			rkv := v.fobject.getKv()
-			rkv.K = fromv.fobject.strkvs[i].K
-			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
+			kvs = append(kvs,strkv{fromv.fobject.strkvs[i].K,fromv.fobject.strkvs[i].V.clone(c)})
 		}
+		v.fobject.strkvs = append(v.fobject.strkvs,kvs...)
 	case VT_Array:
 		c := v.ownercache
+		var values []*DxValue
 		for i := 0;i < len(fromv.farr);i++{
-			v.farr = append(v.farr, fromv.farr[i].clone(c))
+			values = append(values, fromv.farr[i].clone(c))
 		}
+		v.farr = append(v.farr,values...)
 	}
 }
 
@@ -679,24 +682,31 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 	if v.ReadOnly() || v == fromv{
 		return
 	}
-	v.Reset(fromv.DataType)
-	v.ExtType = fromv.ExtType
+	//来源可能包含v自身，先复制下级再清空
+	var kvs []strkv
+	var values []*DxValue
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
 			c = v.ownercache
 		}
-		v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
 		for i := 0; i<len(fromv.fobject.strkvs);i++{
-			rkv := v.fobject.getKv()
-			rkv.K = fromv.fobject.strkvs[i].K
-			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
+			kvs = append(kvs,strkv{fromv.fobject.strkvs[i].K,fromv.fobject.strkvs[i].V.clone(c)})
 		}
 	case VT_Array:
 		c := v.ownercache
 		for i := 0;i < len(fromv.farr);i++{
-			v.farr = append(v.farr, fromv.farr[i].clone(c))
+			values = append(values, fromv.farr[i].clone(c))
 		}
+	}
+	v.Reset(fromv.DataType)
+	v.ExtType = fromv.ExtType
+	switch fromv.DataType {
+	case VT_Object:
+		v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
+		v.fobject.strkvs = append(v.fobject.strkvs,kvs...)
+	case VT_Array:
+		v.farr = append(v.farr,values...)
 	case VT_String,VT_RawString:
 		v.fstrvalue = fromv.fstrvalue
 	case VT_Binary,VT_ExBinary:
-- 
2.43.0


From e2d674bc516080d2281905aec5db24854c129129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:27 +0000
Subject: [PATCH 54/69] fix: setting a binary never writes into memory shared
 with the input or other values (C10)

---
 bin_value.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bin_value.go b/bin_value.go
index d6588ec..b59a80c 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -30,7 +30,8 @@ func (v *DxValue)BinLen()int  {
 func (v *DxValue)SetExtType(t byte)  {
 	if v.DataType == VT_ExBinary{
 		if len(v.fbinary) > 0{
-			v.fbinary[0] = t
+			//原来的内存可能是与外部共享的，不能写入
+			v.fbinary = append([]byte{t},v.fbinary[1:]...)
 		}else{
 			v.fbinary = append(v.fbinary,t)
 		}
@@ -55,14 +56,14 @@ func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 	switch v.DataType {
 	case VT_Binary:
 		if valueClone{
-			v.fbinary = append(v.fbinary[:0],b...)
+			//原来的内存可能是与外部共享的，不能写入
+			v.fbinary = append([]byte{},b...)
 		}else{
 			v.fbinary = b
 		}
 	case VT_ExBinary:
 		if len(v.fbinary) > 0{
-			v.fbinary = append(v.fbinary[:0],v.fbinary[0])
-			v.fbinary = append(v.fbinary,b...)
+			v.fbinary = append([]byte{v.fbinary[0]},b...)
 		}else{
 			v.Reset(VT_Binary)
 			if valueClone{
-- 
2.43.0


From 8eb3369c8412b886312f73102d21a8ecca471035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:57 +0000
Subject: [PATCH 55/69] fix: refuse documents nested deeper than 100000 levels
 instead of overflowing the stack

---
 bson_parse.go   | 20 +++++++++++++-------
 dxvalue.go      |  6 +++++-
 jsonparse.go    | 23 +++++++++++++----------
 msgpackparse.go | 23 +++++++++++++----------
 4 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 12d36db..66249e6 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -21,7 +21,10 @@ var(
 BSON文档（对象）由一个有序的元素列表构成。每个元素由一个字段名、一个类型和一个值组成。字段名为字符串。
 所以BSON文档必然是Object
  */
-func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *DxValue)(docLen,parseIndex int,err error)  {
+func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *DxValue,depth int)(docLen,parseIndex int,err error)  {
+	if depth > maxNesting{
+		return 0,0,ErrNesting
+	}
 	if len(b) <= 4{
 		return 0,0,ErrBadBSONDocLen
 	}
@@ -60,7 +63,7 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 		switch btype {
 		case BSON_Array:
 			element = documentValue.SetKeyCached(keyName,VT_Array,c)
-			arraylen,parseIdx,err := parseBsonArray(b[parseIndex:],c,element,sharebinary)
+			arraylen,parseIdx,err := parseBsonArray(b[parseIndex:],c,element,sharebinary,depth+1)
 			if err == nil{
 				parseIndex += arraylen
 			}else{
@@ -68,7 +71,7 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 			}
 		case BSON_EmbeddedDocument:
 			element = documentValue.SetKeyCached(keyName,VT_Object,c)
-			doclen,parseIdx,err := parseBsonDocument(b[parseIndex:],c,sharebinary,element)
+			doclen,parseIdx,err := parseBsonDocument(b[parseIndex:],c,sharebinary,element,depth+1)
 			if err == nil{
 				parseIndex += doclen
 			}else{
@@ -89,7 +92,10 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 }
 
 //数组结构解析和文档结构解析差不多，将数组的索引号设定为docment的key
-func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docLen,parseIndex int,err error)  {
+func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool,depth int)(docLen,parseIndex int,err error)  {
+	if depth > maxNesting{
+		return 0,0,ErrNesting
+	}
 	if len(b) <= 4{
 		return 0,0,ErrBadBSONDocLen
 	}
@@ -133,7 +139,7 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 		switch btype {
 		case BSON_Array:
 			element = value.SetIndexCached(arridx,VT_Array,c)
-			arraylen,parseIdx,err := parseBsonArray(b[parseIndex:],c,element,shareBinary)
+			arraylen,parseIdx,err := parseBsonArray(b[parseIndex:],c,element,shareBinary,depth+1)
 			if err == nil{
 				parseIndex += arraylen
 			}else{
@@ -141,7 +147,7 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 			}
 		case BSON_EmbeddedDocument:
 			element = value.SetIndexCached(arridx,VT_Object,c)
-			doclen,parseIdx,err := parseBsonDocument(b[parseIndex:],c,shareBinary,element)
+			doclen,parseIdx,err := parseBsonDocument(b[parseIndex:],c,shareBinary,element,depth+1)
 			if err == nil{
 				parseIndex += doclen
 			}else{
@@ -285,7 +291,7 @@ func NewValueFromBson(b []byte,useCache bool,sharebinary bool)(*DxValue,error)
 		c = getCache()
 	}
 	root := c.getValue(VT_Object)
-	_,_,err := parseBsonDocument(b,c,sharebinary,root)
+	_,_,err := parseBsonDocument(b,c,sharebinary,root,1)
 	if err != nil{
 		return nil, err
 	}
diff --git a/dxvalue.go b/dxvalue.go
index 2c013df..48111b3 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -33,8 +33,12 @@ const(
 var(
 	IgnoreCase = false		//是否忽略大小写
 	ErrReadOnly = errors.New("dxsvalue: the value is a read only constant")
+	ErrNesting = errors.New("dxsvalue: the document is nested too deep")
 )
 
+//解码时允许的最大嵌套层数，递归过深会耗尽堆栈导致进程崩溃
+const maxNesting = 100000
+
 
 type  strkv struct {
 	K			string
@@ -350,7 +354,7 @@ func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
 		return nil
 	}
 	v.Reset(VT_Object)
-	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v)
+	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v,1)
 	if err != nil{
 		v.Clear()
 	}
diff --git a/jsonparse.go b/jsonparse.go
index 629dbdb..84a05a9 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -70,7 +70,7 @@ func (err *ErrorParseJson)Error()string  {
 
 //解析从fastjson中的代码修改
 //如果成功，tail中返回的是剩下的字节内容，否则发生错误的话，tail中返回的是当前正在解析的数据
-func parseJsonObj(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+func parseJsonObj(b []byte,c *ValueCache,sharebinary bool,depth int)(result *DxValue,tail []byte,err error)  {
 	oldb := b
 	b,skiplen := skipWB(b)
 	if len(b) == 0{
@@ -120,7 +120,7 @@ func parseJsonObj(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail
 		oldb = b
 		b,skiplen = skipWB(b[1:])
 		//解析Value
-		kv.V, b, err = parseJsonValue(b,c,sharebinary)
+		kv.V, b, err = parseJsonValue(b,c,sharebinary,depth)
 		if err != nil {
 			result = nil
 			tail = b
@@ -196,7 +196,7 @@ func parseJsonObj2V(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error)
 		oldb = b
 		b,skiplen = skipWB(b[1:])
 		//解析Value
-		kv.V, b, err = parseJsonValue(b,v.ownercache,sharebinary)
+		kv.V, b, err = parseJsonValue(b,v.ownercache,sharebinary,1)
 		if err != nil {
 			return b,err
 		}
@@ -296,7 +296,7 @@ func parseJsonString(b []byte,sharebinary bool) (value string, tail []byte, err
 	}
 }
 
-func parseJsonArray(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+func parseJsonArray(b []byte,c *ValueCache,sharebinary bool,depth int)(result *DxValue,tail []byte,err error)  {
 	oldb := b
 	b,skiplen := skipWB(b)
 	if len(b) == 0 {
@@ -318,7 +318,7 @@ func parseJsonArray(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 	for {
 		oldb = b
 		b,skiplen = skipWB(b)
-		v, b, err = parseJsonValue(b,c,sharebinary)
+		v, b, err = parseJsonValue(b,c,sharebinary,depth)
 		if err != nil {
 			return nil,b,err
 		}
@@ -369,7 +369,7 @@ func parseJsonArray2V(b []byte,result *DxValue,sharebinary bool)(tail []byte,err
 	for {
 		oldb = b
 		b,skiplen = skipWB(b)
-		v, b, err = parseJsonValue(b,result.ownercache,sharebinary)
+		v, b, err = parseJsonValue(b,result.ownercache,sharebinary,1)
 		if err != nil {
 			return b,err
 		}
@@ -423,7 +423,7 @@ func NewValueFromJson(b []byte,useCache bool,sharebinary bool)(*DxValue,error)
 		c = getCache()
 	}
 	b,skiplen := skipWB(b)
-	v, tail, err := parseJsonValue(b,c,sharebinary)
+	v, tail, err := parseJsonValue(b,c,sharebinary,0)
 	if err != nil {
 		return nil, err
 	}
@@ -450,7 +450,7 @@ func parseJsonDate(s string)DxCommonLib.TDateTime  {
 	return DxCommonLib.ParserJsonTime(s)
 }
 
-func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+func parseJsonValue(b []byte,c *ValueCache,sharebinary bool,depth int)(result *DxValue,tail []byte,err error)  {
 	if len(b) == 0{
 		return nil,nil,&ErrorParseJson{
 			Type:         0,
@@ -458,11 +458,14 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 			parseB:       b,
 		}
 	}
+	if (b[0] == '{' || b[0] == '[') && depth >= maxNesting{
+		return nil,b,ErrNesting
+	}
 	if b[0] == '{'{
-		return parseJsonObj(b[1:],c,sharebinary)
+		return parseJsonObj(b[1:],c,sharebinary,depth+1)
 	}
 	if b[0] == '[' {
-		return parseJsonArray(b[1:],c,sharebinary)
+		return parseJsonArray(b[1:],c,sharebinary,depth+1)
 	}
 	if b[0] == '"' {
 		ss, tail, err := parseJsonString(b[1:],sharebinary)
diff --git a/msgpackparse.go b/msgpackparse.go
index 14f208d..ea2f7c8 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -55,7 +55,7 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 		}else{
 			key = string(rawbyte)
 		}
-		value,b,err = parseMsgPackValue(b,c,sharebinary)
+		value,b,err = parseMsgPackValue(b,c,sharebinary,1)
 		if err != nil{
 			return b,err
 		}
@@ -65,7 +65,7 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	return
 }
 
-func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool,depth int)(result *DxValue,tail []byte,err error)  {
 	maplen,b,err := parseMapLen(code,b)
 	if err != nil{
 		return nil,b,err
@@ -99,7 +99,7 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 		}else{
 			key = string(rawbyte)
 		}
-		value,b,err = parseMsgPackValue(b,c,sharebinary)
+		value,b,err = parseMsgPackValue(b,c,sharebinary,depth)
 		if err != nil{
 			FreeValue(result)
 			return nil,b,err
@@ -111,7 +111,7 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 }
 
 
-func parseMsgPackArray(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error){
+func parseMsgPackArray(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool,depth int)(result *DxValue,tail []byte,err error){
 	arrlen,b,err := parseArrLen(code,b)
 	if err != nil{
 		return nil,b,err
@@ -125,7 +125,7 @@ func parseMsgPackArray(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool)
 		c = result.ValueCache()
 	}
 	for i := 0;i<arrlen;i++{
-		value,b,err = parseMsgPackValue(b,c,sharebinary)
+		value,b,err = parseMsgPackValue(b,c,sharebinary,depth)
 		if err != nil{
 			FreeValue(result)
 			return nil,b,err
@@ -147,7 +147,7 @@ func parseMsgPackArray2V(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)(
 	}
 	var value *DxValue
 	for i := 0;i<arrlen;i++{
-		value,b,err = parseMsgPackValue(b,c,sharebinary)
+		value,b,err = parseMsgPackValue(b,c,sharebinary,1)
 		if err != nil{
 			return b,err
 		}
@@ -156,11 +156,14 @@ func parseMsgPackArray2V(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)(
 	return b,err
 }
 
-func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail []byte,err error)  {
+func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool,depth int)(result *DxValue,tail []byte,err error)  {
 	code,b,err := readCode(b)
 	if err != nil{
 		return nil,b,err
 	}
+	if depth >= maxNesting && (code.IsArray() || code.IsMap()){
+		return nil,b,ErrNesting
+	}
 	switch  {
 	case code.IsStr():
 		strbt,tail,err := parseString(code,b)
@@ -175,9 +178,9 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 		}
 		return result,tail,nil
 	case code.IsArray():
-		return parseMsgPackArray(code,b,c,sharebinary)
+		return parseMsgPackArray(code,b,c,sharebinary,depth+1)
 	case code.IsMap():
-		return parseMsgPackObject(code,b,c,sharebinary)
+		return parseMsgPackObject(code,b,c,sharebinary,depth+1)
 	case code.IsFixedNum():
 		result = c.getValue(VT_Int)
 		result.SetInt(int64(int8(code)))
@@ -501,7 +504,7 @@ func NewValueFromMsgPack(b []byte,useCache bool,sharebinary bool)(*DxValue,error
 	}else{
 		c = getCache()
 	}
-	v, _, err := parseMsgPackValue(b,c,sharebinary)
+	v, _, err := parseMsgPackValue(b,c,sharebinary,0)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 080919216a3ee61a1a5ddfc3c95ae3d5120c9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:24 +0000
Subject: [PATCH 56/69] fix: the merge callback gets the exact path of entries
 below an empty key (C16)

---
 dxvalue.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 48111b3..56098ec 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -467,9 +467,6 @@ func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte
 		idx := v.fobject.indexByName(value.fobject.strkvs[i].K)
 		if idx != -1{
 			if mergefunc!=nil{
-				if len(parentpath) != 0{
-					parentpath = append(parentpath,'/')
-				}
 				parentpath = append(parentpath,value.fobject.strkvs[i].K...)
 				mergeOp = mergefunc(string(parentpath),v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V)
 			}
@@ -478,7 +475,7 @@ func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte
 				if oldv != nil && oldv.DataType <= VT_Array{
 					if newv != nil && newv.DataType == oldv.DataType{
 						if oldv.DataType == VT_Object{
-							parentpath = mergeObject(parentpath,oldv,newv,mergefunc)
+							parentpath = mergeObject(append(parentpath,'/'),oldv,newv,mergefunc)
 						}else{
 							oldv.MergeWith(newv,mergefunc)
 						}
-- 
2.43.0


From 5f61ea9e1ebf36f9e7f34c91fe4a46f411eb655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:58 +0000
Subject: [PATCH 57/69] fix: converting into a slice that held structs, slices
 or pointers leaves nothing of the old elements (C22)

---
 reflect_parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index 9359f79..0062a63 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -104,6 +104,10 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 	} else if sliceValue.Len() < sliceValue.Cap() {
 		sliceValue.Set(sliceValue.Slice(0, sliceValue.Cap()))
 	}
+	//切片中原来的内容不保留
+	for i := 0;i<sliceValue.Len();i++{
+		sliceValue.Index(i).Set(reflect.Zero(vtype))
+	}
 
 	if vtype.Implements(ValueUnMarshalerType) || reflect.PtrTo(vtype).Implements(ValueUnMarshalerType){
 		for i := 0;i<n;i++{
-- 
2.43.0


From 63b29bfa7a547bb42f253b20c1c7de6eb5708730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:27 +0000
Subject: [PATCH 58/69] fix: SetKeyvalue and SetIndexvalue replace an object or
 array instead of adding to its content (C22)

---
 reflect_parse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index 0062a63..0837959 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -614,6 +614,10 @@ func (v *DxValue)SetValue(value interface{})  {
 }
 
 func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
+	//替换对象或者数组时，不保留原来的内容
+	if old := v.ValueByName(Name);old != nil && old.DataType <= VT_Array{
+		v.SetKeyValue(Name,valueNull)
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetKeyCached(Name,VT_Int,cache).SetInt(int64(realv))
@@ -869,6 +873,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 }
 
 func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
+	//替换对象或者数组时，不保留原来的内容
+	if old := v.ValueByIndex(idx);v.DataType == VT_Array && old != nil && old.DataType <= VT_Array{
+		v.farr[idx] = valueNull
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetIndexCached(idx,VT_Int,cache).SetInt(int64(realv))
-- 
2.43.0


From 0d0e76b927a5d8190ddcb8663399d28dd5ad5c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:53 +0000
Subject: [PATCH 59/69] fix: nan and inf constants read as the numbers they
 are, and are not lost when converted to Go data (C22)

---
 dxvalue.go       | 6 ++++++
 reflect_parse.go | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 56098ec..bb4f9d4 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1018,6 +1018,10 @@ func (v *DxValue)Double()float64  {
 		return float64(*((*float32)(unsafe.Pointer(&v.simpleV[0]))))
 	case VT_String,VT_RawString:
 		return DxCommonLib.StrToFloatDef(v.String(),0)
+	case VT_NAN:
+		return math.NaN()
+	case VT_INF:
+		return math.Inf(1)
 	}
 	return 0
 }
@@ -1036,6 +1040,8 @@ func (v *DxValue)Float()float32  {
 		return *((*float32)(unsafe.Pointer(&v.simpleV[0])))
 	case VT_String,VT_RawString:
 		return float32(DxCommonLib.StrToFloatDef(v.String(),0))
+	case VT_NAN,VT_INF:
+		return float32(v.Double())
 	}
 	return 0
 }
diff --git a/reflect_parse.go b/reflect_parse.go
index 0837959..c0d1631 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -1191,7 +1191,7 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 				value[Key] = mapvalue.Int()
 			case VT_DateTime:
 				value[Key] = mapvalue.GoTime()
-			case VT_Double:
+			case VT_Double,VT_NAN,VT_INF:
 				value[Key] = mapvalue.Double()
 			case VT_Float:
 				value[Key] = mapvalue.Float()
@@ -1230,7 +1230,7 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 				value[idx] = arrvalue.Int()
 			case VT_DateTime:
 				value[idx] = arrvalue.GoTime()
-			case VT_Double:
+			case VT_Double,VT_NAN,VT_INF:
 				value[idx] = arrvalue.Double()
 			case VT_Float:
 				value[idx] = arrvalue.Float()
-- 
2.43.0


From 3ffc79addc9eaa606b4349e91ee7ea46c7745371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:23 +0000
Subject: [PATCH 60/69] fix: the JSON literal -inf is negative infinity, so
 that it survives a change of format (C25)

---
 jsonparse.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsonparse.go b/jsonparse.go
index 84a05a9..0750677 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/suiyunonghen/DxCommonLib"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -580,6 +581,11 @@ func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
 			if len(b[i:]) >= 3 {
 				xs := b[i : i+3]
 				if bytes.EqualFold(xs, infbyte) {
+					if b[0] == '-'{ //负无穷
+						num.Reset(VT_Double)
+						num.SetDouble(math.Inf(-1))
+						return b[i+3:], nil
+					}
 					num.Reset(VT_INF)
 					return b[i+3:], nil
 				}
@@ -621,6 +627,11 @@ func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error)
 			if len(b[i:]) >= 3 {
 				xs := b[i : i+3]
 				if bytes.EqualFold(xs, infbyte) {
+					if b[0] == '-'{ //负无穷
+						num = c.getValue(VT_Double)
+						num.SetDouble(math.Inf(-1))
+						return num, b[i+3:], nil
+					}
 					return valueINF, b[i+3:], nil
 				}
 				if bytes.EqualFold(xs, nanbyte){
-- 
2.43.0


From 8e062beb0e26aa0293018c392c99b5ceb956010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:56 +0000
Subject: [PATCH 61/69] fix: a nil pointer given to the generic setters is
 stored as null instead of ending in a panic (C22)

---
 reflect_parse.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index c0d1631..9aa9566 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -292,6 +292,12 @@ func decodeOther2reflect(fvalue reflect.Value,value *DxValue,ignoreCase bool)boo
 	return true
 }
 
+//空指针，对应null
+func isNilPtr(value interface{})bool  {
+	reflectv := reflect.ValueOf(value)
+	return reflectv.Kind() == reflect.Ptr && reflectv.IsNil()
+}
+
 //自转换类型的转换接口，空指针没有
 func marshalerOf(reflectv reflect.Value)DxValueMarshaler  {
 	if !reflectv.CanInterface() || !reflectv.Type().Implements(ValueMarshalerType){
@@ -326,6 +332,10 @@ func (v *DxValue)SetValue(value interface{})  {
 	if v == valueNAN || v == valueINF || v == valueTrue || v == valueFalse || v == valueNull{
 		return
 	}
+	if isNilPtr(value){
+		v.Reset(VT_NULL)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetInt(int64(realv))
@@ -618,6 +628,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 	if old := v.ValueByName(Name);old != nil && old.DataType <= VT_Array{
 		v.SetKeyValue(Name,valueNull)
 	}
+	if isNilPtr(value){
+		v.SetKeyValue(Name,valueNull)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetKeyCached(Name,VT_Int,cache).SetInt(int64(realv))
@@ -877,6 +891,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 	if old := v.ValueByIndex(idx);v.DataType == VT_Array && old != nil && old.DataType <= VT_Array{
 		v.farr[idx] = valueNull
 	}
+	if isNilPtr(value){
+		v.SetIndexValue(idx,valueNull)
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetIndexCached(idx,VT_Int,cache).SetInt(int64(realv))
-- 
2.43.0


From 7b0ce4de74545511583a37ee53f6068f463bb0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:55 +0000
Subject: [PATCH 62/69] fix: YAML numbers with many digits read as the nearest
 double (C08)

---
 yamlparse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index eccefc9..30d55dd 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -370,6 +370,9 @@ func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bo
 			target.SetInt(vint)
 			return
 		}
+		if exact,err := strconv.ParseFloat(string(vstr),64);err == nil{
+			vfloat = exact //位数较多时，DxCommonLib.ParseFloat的末位会有误差
+		}
 		target.SetDouble(vfloat)
 		return
 	}
-- 
2.43.0


From 17db6c4aa1dcc80d16fc784787c930d72c5bf2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 63/69] fix: text with many digits is read as the nearest
 number (C20)

---
 dxvalue.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index bb4f9d4..75ba84d 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1004,6 +1004,18 @@ func (v *DxValue)SetBool(value bool)  {
 	}
 }
 
+//DxCommonLib.ParseFloat对于位数较多的数字会有误差，它能识别的数字用标准库取最接近的值
+func textToDouble(s string)float64  {
+	vfloat,err := DxCommonLib.ParseFloat(s)
+	if err != nil{
+		return 0
+	}
+	if exact,err := strconv.ParseFloat(s,64);err == nil{
+		return exact
+	}
+	return vfloat
+}
+
 func (v *DxValue)Double()float64  {
 	switch v.DataType {
 	case VT_True:
@@ -1017,7 +1029,7 @@ func (v *DxValue)Double()float64  {
 	case VT_Float:
 		return float64(*((*float32)(unsafe.Pointer(&v.simpleV[0]))))
 	case VT_String,VT_RawString:
-		return DxCommonLib.StrToFloatDef(v.String(),0)
+		return textToDouble(v.String())
 	case VT_NAN:
 		return math.NaN()
 	case VT_INF:
@@ -1039,7 +1051,7 @@ func (v *DxValue)Float()float32  {
 	case VT_Float:
 		return *((*float32)(unsafe.Pointer(&v.simpleV[0])))
 	case VT_String,VT_RawString:
-		return float32(DxCommonLib.StrToFloatDef(v.String(),0))
+		return float32(textToDouble(v.String()))
 	case VT_NAN,VT_INF:
 		return float32(v.Double())
 	}
-- 
2.43.0


From 802c9ded5c75a07fbb8b6ad668bfe8689f5f1861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 64/69] fix: text decoded with raw control characters or
 unknown escapes is written as standard JSON (C01)

---
 jsonparse.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 0750677..f7e433b 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -774,6 +774,30 @@ func escapeJson(str string,escapeUnicode bool,dst []byte)[]byte  {
 	return dst
 }
 
+//解码时未处理转义的原文，是规范的Json文本就原样输出，否则(控制字符、无效的转义)重新转义
+func rawJson(str string,escapeStyle JsonEscapeStyle,dst []byte)[]byte  {
+	if escapeStyle != JSE_NoEscape && !isJsonText(str){
+		return escapeJson(unEscapeJson(str),escapeStyle==JSE_AllEscape,dst)
+	}
+	return append(dst,str...)
+}
+
+func isJsonText(str string)bool  {
+	for i := 0;i<len(str);i++{
+		if str[i] < ' '{
+			return false
+		}
+		if str[i] != '\\'{
+			continue
+		}
+		i++
+		if i == len(str) || strings.IndexByte(`"\/bfnrtu`,str[i]) < 0 || str[i] == 'u' && hexRune(str[i+1:]) < 0{
+			return false
+		}
+	}
+	return true
+}
+
 type JsonEscapeStyle	uint8
 const(
 	JSE_NoEscape JsonEscapeStyle = iota
@@ -809,7 +833,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 				if escapeStyle != JSE_NoEscape &&  v.fobject.keysUnescaped{
 					dst = escapeJson(v.fobject.strkvs[i].K,escapeStyle==JSE_AllEscape,dst)
 				}else{
-					dst = append(dst,v.fobject.strkvs[i].K...)
+					dst = rawJson(v.fobject.strkvs[i].K,escapeStyle,dst)
 				}
 			}
 
@@ -846,7 +870,7 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		dst = strconv.AppendFloat(dst,v.Double(),'f',-1,64)
 	case VT_RawString:
 		dst = append(dst,'"')
-		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
+		dst = rawJson(v.fstrvalue,escapeStyle,dst)
 		dst = append(dst,'"')
 	case VT_True:
 		dst = append(dst,"true"...)
@@ -906,7 +930,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 				if v.fobject.keysUnescaped{
 					dst = escapeJson(v.fobject.strkvs[i].K,escapeStyle == JSE_AllEscape,dst)
 				}else{
-					dst = append(dst,v.fobject.strkvs[i].K...)
+					dst = rawJson(v.fobject.strkvs[i].K,escapeStyle,dst)
 				}
 			}else{
 				if !v.fobject.keysUnescaped{
@@ -967,7 +991,7 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		dst = strconv.AppendFloat(dst,v.Double(),'f',-1,64)
 	case VT_RawString:
 		dst = append(dst,'"')
-		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
+		dst = rawJson(v.fstrvalue,escapeStyle,dst)
 		dst = append(dst,'"')
 	case VT_True:
 		dst = append(dst,"true"...)
-- 
2.43.0


From 8893224a51e319a66708b5b9354ad8c245dea07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 65/69] fix: FreeValue and AddFrom leave the shared constants
 alone (C12)

Freeing (or adding entries to) true, false, null, nan or inf wrote to the
value every goroutine shares.
---
 cache.go   | 2 +-
 dxvalue.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index bc456b3..0b8a29d 100644
--- a/cache.go
+++ b/cache.go
@@ -62,7 +62,7 @@ func (c *ValueCache)Reset(toRoot bool)  {
 
 //释放Value回收ValueCache
 func FreeValue(v *DxValue)  {
-	if v == nil{
+	if v == nil || v.ReadOnly(){
 		return
 	}
 	v.Clear()
diff --git a/dxvalue.go b/dxvalue.go
index 75ba84d..dbe4d37 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -653,6 +653,9 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
+	if v.ReadOnly(){
+		return
+	}
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
-- 
2.43.0


From 196201fa8ecc0ba12a7878da7a804d1a9e97a4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:38 +0000
Subject: [PATCH 66/69] fix: YAML text continued over many lines was copied
 again for every line

---
 yamlparse.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/yamlparse.go b/yamlparse.go
index 30d55dd..d30d3b5 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -26,6 +26,7 @@ type yamlParser struct {
 	parseData			[]byte
 	fParsingValues		[]yamlNode			//正在解析中的Value
 	useageValues		[]strkv	//引用值信息
+	textBuf				[]byte	//正在延续的多行字符串的内容
 }
 
 
@@ -62,6 +63,7 @@ func (parser *yamlParser)reset(data []byte)  {
 		parser.useageValues[i].K = ""
 	}
 	parser.useageValues = parser.useageValues[:0]
+	parser.textBuf = nil //内容已经交给了值
 }
 
 func (parser *yamlParser)setCachedUseage(cacheName string,cacheValue *DxValue)  {
@@ -145,7 +147,7 @@ func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
 	}
 	if isvalue{
 		if isstrvalue{
-			currentValue.SetString(currentValue.String() + " "+string(dataLine))
+			parser.appendText(currentValue,dataLine)
 		}else{
 			k,v,hasKeySplit := parser.splitKv(dataLine)
 			if !hasKeySplit{ //不存在键值分隔符
@@ -278,7 +280,7 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 			parser.parseStringValue(currentValue,dataLine,true)
 		}else{
 			//上一行字符串的延续
-			currentValue.SetString(currentValue.String() + " " + string(dataLine))
+			parser.appendText(currentValue,dataLine)
 		}
 		return nil
 	}
@@ -420,6 +422,17 @@ func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bo
 	}
 }
 
+//在字符串后增加一行，缓冲区只增不改，避免每一行都重新复制之前的所有内容
+func (parser *yamlParser)appendText(target *DxValue,line []byte)  {
+	text := target.String()
+	if text != DxCommonLib.FastByte2String(parser.textBuf){
+		parser.textBuf = append([]byte(nil),text...)
+	}
+	parser.textBuf = append(parser.textBuf,' ')
+	parser.textBuf = append(parser.textBuf,line...)
+	target.SetString(DxCommonLib.FastByte2String(parser.textBuf))
+}
+
 func (parser *yamlParser)parse()error  {
 	datalen := len(parser.parseData)
 	if datalen == 0{
-- 
2.43.0


From ae15a6c38405b3d5bfac9a7661f86fb227383b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:30 +0000
Subject: [PATCH 67/69] fix: a YAML number continued as text on the next line
 lost its spelling

---
 yamlparse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index d30d3b5..b8822e1 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -27,6 +27,7 @@ type yamlParser struct {
 	fParsingValues		[]yamlNode			//正在解析中的Value
 	useageValues		[]strkv	//引用值信息
 	textBuf				[]byte	//正在延续的多行字符串的内容
+	numText				[]byte	//最近一个数字的原始文本
 }
 
 
@@ -64,6 +65,7 @@ func (parser *yamlParser)reset(data []byte)  {
 	}
 	parser.useageValues = parser.useageValues[:0]
 	parser.textBuf = nil //内容已经交给了值
+	parser.numText = nil
 }
 
 func (parser *yamlParser)setCachedUseage(cacheName string,cacheValue *DxValue)  {
@@ -367,6 +369,7 @@ func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bo
 		return
 	}
 	if vfloat,err := DxCommonLib.ParseFloat(DxCommonLib.FastByte2String(vstr));err == nil{
+		parser.numText = vstr
 		if vint,err := strconv.ParseInt(string(vstr),10,64);err == nil && (vint > 1 << 53 || vint < -1 << 53){
 			//double无法精确表示的整数
 			target.SetInt(vint)
@@ -425,6 +428,9 @@ func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bo
 //在字符串后增加一行，缓冲区只增不改，避免每一行都重新复制之前的所有内容
 func (parser *yamlParser)appendText(target *DxValue,line []byte)  {
 	text := target.String()
+	if len(parser.numText) > 0 && (target.DataType == VT_Double || target.DataType == VT_Int){
+		text = string(parser.numText) //数字的原始写法可能与格式化后的不同
+	}
 	if text != DxCommonLib.FastByte2String(parser.textBuf){
 		parser.textBuf = append([]byte(nil),text...)
 	}
-- 
2.43.0


From b8fff3c580361205d690e216777254d1c8d349e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:26 +0000
Subject: [PATCH 68/69] fix: YAML lines starting with '-' without a following
 space are not sequence entries

---
 yamlparse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index b8822e1..2beab9a 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -198,7 +198,8 @@ func (parser *yamlParser)parseLine(lineData []byte,spaceCount int)error  {
 	}
 
 
-	isArray := dataLine[0] == '-'
+	//数组标记后必须有空格(或者在行尾)，否则是以"-"开头的普通内容
+	isArray := dataLine[0] == '-' && (len(dataLine) == 1 || spaceTrim(rune(dataLine[1])))
 	//将不是当前行上级的节点弹出，数组可以和它所属的键对齐
 	l := len(parser.fParsingValues)
 	popCount := 0
@@ -214,6 +215,11 @@ func (parser *yamlParser)parseLine(lineData []byte,spaceCount int)error  {
 		popCount++
 	}
 	parser.popLast(popCount)
+	if isArray && len(parser.fParsingValues) > 1{
+		//上级是字符串或者数字，那么是它的延续，不是数组
+		last := parser.fParsingValues[len(parser.fParsingValues)-1].v
+		isArray = last.DataType == VT_NULL || last.DataType <= VT_Array
+	}
 	var err error
 	if isArray{
 		err = parser.parseArray(dataLine[1:],spaceCount)
-- 
2.43.0


From cb026a2bea386b0eabb2d88c295e2442441caedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:45 +0000
Subject: [PATCH 69/69] fix: SetIndex gives a writable node for an entry that
 holds a shared constant of that kind (C21)

---
 dxvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index dbe4d37..74c9eb7 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1364,7 +1364,7 @@ func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
 	l := len(v.farr)
 	if idx >= 0 && idx < l{
 		result := v.farr[idx]
-		if result != nil && result.DataType != tp{
+		if result != nil{
 			if result == valueTrue || result == valueNull || result == valueFalse || result == valueINF || result == valueNAN{
 				result = c.getValue(tp)
 				v.farr[idx] = result
-- 
2.43.0

