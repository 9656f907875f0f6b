From 1e03b3062b5588c3eacec4b1469312c7ccd374ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 01/73] fix: AMF0 reference one past the table end panicked

---
 amf/amf0.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 5ecee4d..4dccb4f 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -182,7 +182,7 @@ func (ed *EnDecAMF0) decodeReference(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
-	if int(ref) > len(ed.deRefCache) {
+	if int(ref) >= len(ed.deRefCache) {
 		return nil, fmt.Errorf("bad reference %d (current length %d)", ref, len(ed.deRefCache))
 	}
 
-- 
2.43.0


From 960a133b0452b8326e41aa29e141673ae8775285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 02/73] fix: AMF reads assumed one Read call returns everything
 and trusted declared lengths

---
 amf/helper.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/amf/helper.go b/amf/helper.go
index da0e6d4..5541b9f 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -60,16 +60,36 @@ func readByte(r io.Reader) (byte, error) {
 	return bytes[0], nil
 }
 
+// 单次分配的内存下限
+const readChunkSize = 4096
+
 // 读多字节
 func readBytes(r io.Reader, n int) ([]byte, error) {
-	bytes := make([]byte, n)
-	m, err := r.Read(bytes)
-	if err != nil {
-		return bytes, err
+	if n < 0 {
+		return nil, fmt.Errorf("bad length %d", n)
 	}
 
-	if m != n {
-		return bytes, fmt.Errorf("expected %d bytes, but got %d bytes", m, n)
+	// 长度由对端声明, 不可信: 按实际收到的数据逐步分配内存
+	var bytes []byte
+	for len(bytes) < n {
+		size := len(bytes)
+		if size < readChunkSize {
+			size = readChunkSize
+		}
+		if size > n-len(bytes) {
+			size = n - len(bytes)
+		}
+
+		start := len(bytes)
+		bytes = append(bytes, make([]byte, size)...)
+		m, err := io.ReadFull(r, bytes[start:])
+		if err != nil {
+			if err == io.EOF && start > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+
+			return bytes[:start+m], err
+		}
 	}
 
 	return bytes, nil
-- 
2.43.0


From d82d5b7d115414d2c8265f5480aaf80aaff1a32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 03/73] fix: DecodeBatch took a truncated AMF value for a clean
 end of stream

---
 amf/amf0.go | 13 +++++++++++++
 amf/amf3.go | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index 4dccb4f..3cafd91 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -49,6 +49,19 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	// 读到类型后数据就不能中断, io.EOF只表示恰好在两个值之间结束
+	val, err := ed.decodeValue(r, marker)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+
+	return val, err
+}
+
+// 按类型解析一个值
+func (ed *EnDecAMF0) decodeValue(r io.Reader, marker byte) (interface{}, error) {
+	var err error
+
 	switch marker {
 	case numberMarkerOnAMF0:
 		// marker: 1 byte 0x00
diff --git a/amf/amf3.go b/amf/amf3.go
index 9f0ae62..f899ed7 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -76,6 +76,19 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	// 读到类型后数据就不能中断, io.EOF只表示恰好在两个值之间结束
+	val, err := ed.decodeValue(r, marker)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+
+	return val, err
+}
+
+// 按类型解析一个值
+func (ed *EnDecAMF3) decodeValue(r io.Reader, marker byte) (interface{}, error) {
+	var err error
+
 	switch marker {
 	case undefinedMarkerOnAMF3, nullMarkerOnAMF3:
 		return nil, nil
-- 
2.43.0


From 6424352d7c81c44c5a769cc566a7e024bf259037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 04/73] fix: AMF3 XML and byte arrays lost data on short reads
 and skipped empty table entries

---
 amf/amf3.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index f899ed7..d450b1d 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -444,14 +444,8 @@ func (ed *EnDecAMF3) decodeXmlDoc(r io.Reader) (string, error) {
 		return result, nil
 	}
 
-	// xml字符个数
-	if refVal == 0 {
-		return "", nil
-	}
-
 	// 按数值取值
-	buf := make([]byte, refVal)
-	_, err = r.Read(buf)
+	buf, err := readBytes(r, int(refVal))
 	if err != nil {
 		return "", err
 	}
@@ -485,14 +479,8 @@ func (ed *EnDecAMF3) decodeByteArray(r io.Reader) ([]byte, error) {
 		return result, nil
 	}
 
-	// 字节个数
-	if refVal == 0 {
-		return nil, nil
-	}
-
 	// 按数值取值
-	result := make([]byte, refVal)
-	_, err = r.Read(result)
+	result, err := readBytes(r, int(refVal))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a497105dc88ecb2c8a8cac06b465e32cdec27093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 05/73] fix: AMF0 dates were written with a stray number marker

---
 amf/amf0.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 3cafd91..a2319fc 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -618,12 +618,12 @@ func (ed *EnDecAMF0) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n := 1
 
-	var m = 0
-	m, err = ed.encodeNumber(w, float64(val.Unix())*1000.0)
+	// 毫秒时间戳(没有number类型的标记)
+	err = binary.Write(w, binary.BigEndian, float64(val.Unix())*1000.0)
 	if err != nil {
 		return 0, err
 	}
-	n += m
+	n += 8
 
 	err = binary.Write(w, binary.BigEndian, int16(0))
 	if err != nil {
-- 
2.43.0


From ef2e5746f1c14d1f0a83e6e06aab00864f9afe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 06/73] fix: EncodeWithAMF3 and EncodeXmlDocument hid a failed
 marker write

---
 amf/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index a2319fc..f05791a 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -370,7 +370,7 @@ func (ed *EnDecAMF0) EncodeBatch(w io.Writer, args ...interface{}) error {
 func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 	err := writeByte(w, avmPlusObjectMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.EnDecAMF3.Encode(w, val)
@@ -385,7 +385,7 @@ func (ed *EnDecAMF0) EncodeWithAMF3(w io.Writer, val interface{}) (int, error) {
 func (ed *EnDecAMF0) EncodeXmlDocument(w io.Writer, val string) (int, error) {
 	err := writeByte(w, xmlDocumentMarkerOnAMF0)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 
 	n, err := ed.encodeLongString(w, val, false)
-- 
2.43.0


From 9b009c86d74827da390536f9411101aaa55c7375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 07/73] fix: AMF0 wrote objects with empty or over-long keys
 that nobody can read back

---
 amf/amf0.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index f05791a..e6e90e4 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -504,6 +504,10 @@ func (ed *EnDecAMF0) encodeString(w io.Writer, val string, encodeMarker bool) (i
 	var n int
 	var err error
 
+	if len(val) > 65535 {
+		return 0, fmt.Errorf("string of %d bytes exceeds 65535", len(val))
+	}
+
 	if encodeMarker {
 		err = writeByte(w, stringMarkerOnAMF0)
 		if err != nil {
@@ -542,6 +546,11 @@ func (ed *EnDecAMF0) encodeObject(w io.Writer, val Object, encodeMarker bool) (i
 
 	var m = 0
 	for k, v := range val {
+		// 空key是对象的结束标志
+		if k == "" {
+			return 0, fmt.Errorf("empty key in object")
+		}
+
 		// 数组key
 		m, err = ed.encodeString(w, k, false)
 		if err != nil {
-- 
2.43.0


From b355c1e3002ed2f1af528c875a7f9a14cd77c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 08/73] fix: AMF0 references to arrays and typed objects
 resolved to empty or wrong values

---
 amf/amf0.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index e6e90e4..b6bcb4a 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -161,6 +161,11 @@ func (ed *EnDecAMF0) decodeObject(r io.Reader) (Object, error) {
 	result := make(Object)
 	ed.deRefCache = append(ed.deRefCache, result)
 
+	return ed.decodeProperties(r, result)
+}
+
+// 读取对象的所有属性直到结束符
+func (ed *EnDecAMF0) decodeProperties(r io.Reader, result Object) (Object, error) {
 	for {
 		// 读取字符串
 		key, err := ed.decodeString(r)
@@ -230,6 +235,7 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 
 	// 初始化数组
 	var result Array
+	index := len(ed.deRefCache)
 	ed.deRefCache = append(ed.deRefCache, result)
 
 	// 填充数组
@@ -242,6 +248,9 @@ func (ed *EnDecAMF0) decodeStrictArray(r io.Reader) (Array, error) {
 		result = append(result, val)
 	}
 
+	// 引用表中保存完整的数组
+	ed.deRefCache[index] = result
+
 	return result, nil
 }
 
@@ -280,6 +289,7 @@ func (ed *EnDecAMF0) decodeLongString(r io.Reader) (string, error) {
 func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 	// 数组化类型数组
 	var result TypedObject
+	index := len(ed.deRefCache)
 	ed.deRefCache = append(ed.deRefCache, result)
 
 	// 读取类型
@@ -289,7 +299,7 @@ func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 	}
 
 	// 读取对象
-	objectVal, err := ed.decodeObject(r)
+	objectVal, err := ed.decodeProperties(r, make(Object))
 	if err != nil {
 		return result, err
 	}
@@ -300,6 +310,9 @@ func (ed *EnDecAMF0) decodeTypedObject(r io.Reader) (TypedObject, error) {
 		Object: objectVal,
 	}
 
+	// 引用表中保存完整的对象
+	ed.deRefCache[index] = result
+
 	return result, nil
 }
 
-- 
2.43.0


From 7e2f2810ffec7882127b6a64f62404f4a31068c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 09/73] fix: AMF0 booleans other than 1 are true

---
 amf/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index b6bcb4a..55605da 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -75,14 +75,14 @@ func (ed *EnDecAMF0) decodeValue(r io.Reader, marker byte) (interface{}, error)
 		return f64, nil
 	case booleanMarkerOnAMF0:
 		// marker: 1 byte 0x01
-		// format: 1 byte, 0x00 = false, 0x01 = true
+		// format: 1 byte, 0x00 = false, otherwise true
 		var flag byte
 		flag, err = readByte(r)
 		if err != nil {
 			return nil, err
 		}
 
-		return flag == 1, nil
+		return flag != 0, nil
 	case stringMarkerOnAMF0:
 		return ed.decodeString(r)
 	case objectMarkerOnAMF0:
-- 
2.43.0


From a2e099b502345a03ca92a8ae3b97a17b1361a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 10/73] fix: AMF3 integers are signed 29-bit values

---
 amf/amf3.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index d450b1d..007a6d1 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -97,7 +97,18 @@ func (ed *EnDecAMF3) decodeValue(r io.Reader, marker byte) (interface{}, error)
 	case trueMarkerOnAMF3:
 		return true, nil
 	case integerMarkerOnAMF3:
-		return ed.readUint29(r)
+		var u29 uint32
+		u29, err = ed.readUint29(r)
+		if err != nil {
+			return nil, err
+		}
+
+		// 29位有符号整数的负数部分
+		if u29 > 0x0FFFFFFF {
+			return int32(u29) - 0x20000000, nil
+		}
+
+		return u29, nil
 	case doubleMarkerOnAMF3:
 		var f64 float64
 		err = binary.Read(r, binary.BigEndian, &f64)
@@ -568,13 +579,13 @@ func (ed *EnDecAMF3) Encode(w io.Writer, val interface{}) (int, error) {
 
 		return ed.encodeFalse(w)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32:
-		if v.Int() >= -536870911 && v.Int() < 536870911 {
-			return ed.encodeInteger(w, uint32(v.Int()))
+		if v.Int() >= -0x10000000 && v.Int() <= 0x0FFFFFFF {
+			return ed.encodeInteger(w, uint32(v.Int())&0x1FFFFFFF)
 		}
 
 		return ed.encodeDouble(w, float64(v.Int()))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:
-		if v.Uint() < 536870911 {
+		if v.Uint() <= 0x0FFFFFFF {
 			return ed.encodeInteger(w, uint32(v.Uint()))
 		}
 
-- 
2.43.0


From a03e25770102a2916cd34aec60b0f9461cc4421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 11/73] fix: AMF3 dynamic, externalizable and message field
 flags were never recognised

---
 amf/amf3.go          | 4 ++--
 amf/amf3_external.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 007a6d1..c4f913d 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -323,10 +323,10 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 		trait = ed.traitTable[index]
 	} else {
 		// Note: no property names are included in the trait information
-		trait.Externalizable = (refVal & 0x02) == 1
+		trait.Externalizable = (refVal & 0x02) != 0
 
 		// Note: another dynamic member follows until the string-type is the empty string.
-		trait.Dynamic = (refVal & 0x04) == 1
+		trait.Dynamic = (refVal & 0x04) != 0
 
 		// Note: use the empty string for anonymous classes
 		trait.Type, err = ed.decodeString(r)
diff --git a/amf/amf3_external.go b/amf/amf3_external.go
index f3481b2..eab8d67 100755
--- a/amf/amf3_external.go
+++ b/amf/amf3_external.go
@@ -71,7 +71,7 @@ func (ed *EnDecAMF3) decodeExternal(r io.Reader, obj *Object, fieldSets ...[]str
 		// 只有在flagSet里设置为1的值才会被解开
 		for p, field := range fieldNames {
 			flagBit := uint8(math.Exp2(float64(p)))
-			if (flags & flagBit) == 1 {
+			if (flags & flagBit) != 0 {
 				tmp, err := ed.Decode(r)
 				if err != nil {
 					return err
-- 
2.43.0


From a242719663ba5a8187f19825b196a8cdc99efce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 12/73] fix: AMF3 references to arrays and objects resolved to
 empty values

---
 amf/amf3.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index c4f913d..92fd48f 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -261,6 +261,7 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 
 	// 初始化数组
 	var result EcmaArrayAMF3
+	index := len(ed.deObjTable)
 	ed.deObjTable = append(ed.deObjTable, result)
 	result.associative = make(Object)
 	result.dense = make(Array, refVal)
@@ -288,6 +289,9 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 		}
 	}
 
+	// 引用表中保存完整的数组
+	ed.deObjTable[index] = result
+
 	return result, nil
 }
 
@@ -348,6 +352,7 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 	}
 
 	var result interface{}
+	index := len(ed.deObjTable)
 	ed.deObjTable = append(ed.deObjTable, result)
 
 	// objects can be externalizable, meaning that the system has no concrete understanding of
@@ -372,9 +377,6 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 			if err != nil {
 				return nil, err
 			}
-
-			// store an extra reference to array collection container
-			ed.deObjTable = append(ed.deObjTable, result)
 		default:
 			// 调用外部函数
 			fn, ok := ed.externalHandlers[trait.Type]
@@ -388,12 +390,15 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 			}
 		}
 
-		// 外部函数调用完即可结束
+		// 外部函数调用完即可结束, 引用表中保存完整的对象
+		ed.deObjTable[index] = result
+
 		return result, nil
 	}
 
 	// 解析Properties, Dynamic
 	obj := make(Object)
+	ed.deObjTable[index] = obj
 
 	// non-externalizable objects have property keys in traits, iterate through them
 	// and add the read values to the object
-- 
2.43.0


From 3a12283f04396ec9a0dff2f227fd64f911735ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 13/73] fix: RegisterExternalHandler panicked on an AMF0 codec

---
 amf/amf3.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amf/amf3.go b/amf/amf3.go
index 92fd48f..05ec220 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -66,6 +66,10 @@ func NewEnDecAMF3() *EnDecAMF3 {
 
 // RegisterExternalHandler 注册远程调用
 func (ed *EnDecAMF3) RegisterExternalHandler(name string, f ExternalHandler) {
+	if ed.externalHandlers == nil {
+		ed.externalHandlers = make(map[string]ExternalHandler)
+	}
+
 	ed.externalHandlers[name] = f
 }
 
-- 
2.43.0


From 684db0cb87d260b96668786150fa575b3e25e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 14/73] fix: AMF3 array and trait counts allocated memory for
 members never received

---
 amf/amf3.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/amf/amf3.go b/amf/amf3.go
index 05ec220..5693b56 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -268,7 +268,7 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 	index := len(ed.deObjTable)
 	ed.deObjTable = append(ed.deObjTable, result)
 	result.associative = make(Object)
-	result.dense = make(Array, refVal)
+	result.dense = make(Array, 0)
 
 	// list of assoicative array, terminated by an empty string
 	for key != "" {
@@ -287,10 +287,12 @@ func (ed *EnDecAMF3) decodeArray(r io.Reader) (EcmaArrayAMF3, error) {
 
 	// list of dense array
 	for i := uint32(0); i < refVal; i++ {
-		result.dense[i], err = ed.Decode(r)
+		val, err := ed.Decode(r)
 		if err != nil {
 			return EcmaArrayAMF3{}, err
 		}
+
+		result.dense = append(result.dense, val)
 	}
 
 	// 引用表中保存完整的数组
@@ -344,12 +346,14 @@ func (ed *EnDecAMF3) decodeObject(r io.Reader) (interface{}, error) {
 
 		// Note: traits have property keys, encoded as amf3 strings
 		count := int(refVal >> 3)
-		trait.Properties = make([]string, count)
+		trait.Properties = make([]string, 0)
 		for i := 0; i < count; i++ {
-			trait.Properties[i], err = ed.decodeString(r)
+			prop, err := ed.decodeString(r)
 			if err != nil {
 				return nil, err
 			}
+
+			trait.Properties = append(trait.Properties, prop)
 		}
 
 		ed.traitTable = append(ed.traitTable, trait)
-- 
2.43.0


From bae071f36333524004807823536181958c26ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 15/73] fix: DelMetaHeader assumed one encoding of the
 set-data-frame command

---
 amf/metadata.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amf/metadata.go b/amf/metadata.go
index 299f42f..2a01f7e 100755
--- a/amf/metadata.go
+++ b/amf/metadata.go
@@ -76,7 +76,8 @@ func DelMetaHeader(p []byte, d Decoder) ([]byte, error) {
 	}
 
 	if vv == SetDataFrame {
-		p = p[len(setFrameFrame):]
+		// 命令可能有不同的编码长度, 删除实际解析掉的字节
+		p = p[len(p)-r.Len():]
 	}
 
 	return p, nil
-- 
2.43.0


From d0a5ac86712387302d07ed8ab4641a88da36093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 16/73] fix: deeply nested AMF input exhausted the stack and
 killed the process

---
 amf/amf0.go   | 7 +++++++
 amf/amf3.go   | 8 ++++++++
 amf/helper.go | 3 +++
 3 files changed, 18 insertions(+)

diff --git a/amf/amf0.go b/amf/amf0.go
index 55605da..79040ed 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -49,8 +49,15 @@ func (ed *EnDecAMF0) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	// 嵌套层数由对端决定, 不加限制会耗尽栈空间
+	if ed.depth >= maxDepth {
+		return nil, fmt.Errorf("nested deeper than %d", maxDepth)
+	}
+
 	// 读到类型后数据就不能中断, io.EOF只表示恰好在两个值之间结束
+	ed.depth++
 	val, err := ed.decodeValue(r, marker)
+	ed.depth--
 	if err == io.EOF {
 		err = io.ErrUnexpectedEOF
 	}
diff --git a/amf/amf3.go b/amf/amf3.go
index 5693b56..df5cf93 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -55,6 +55,7 @@ type EnDecAMF3 struct {
 	deObjTable       []interface{}
 	traitTable       []TraitAMF3
 	externalHandlers map[string]ExternalHandler
+	depth            int
 }
 
 // NewEnDecAMF3 AMF3协议解析器
@@ -80,8 +81,15 @@ func (ed *EnDecAMF3) Decode(r io.Reader) (interface{}, error) {
 		return nil, err
 	}
 
+	// 嵌套层数由对端决定, 不加限制会耗尽栈空间
+	if ed.depth >= maxDepth {
+		return nil, fmt.Errorf("nested deeper than %d", maxDepth)
+	}
+
 	// 读到类型后数据就不能中断, io.EOF只表示恰好在两个值之间结束
+	ed.depth++
 	val, err := ed.decodeValue(r, marker)
+	ed.depth--
 	if err == io.EOF {
 		err = io.ErrUnexpectedEOF
 	}
diff --git a/amf/helper.go b/amf/helper.go
index 5541b9f..f1583ab 100755
--- a/amf/helper.go
+++ b/amf/helper.go
@@ -29,6 +29,9 @@ type Encoder interface {
 	EncodeBatch(w io.Writer, args ...interface{}) error
 }
 
+// 值的最大嵌套层数
+const maxDepth = 1024
+
 // 写1字节
 func writeByte(w io.Writer, b byte) error {
 	bytes := make([]byte, 1)
-- 
2.43.0


From f90d91c37b9c47e1e41c35d7e9808c0df7ab44b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:02 +0000
Subject: [PATCH 17/73] fix: negative FLV composition times were read as large
 positive ones

---
 container/flv/tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/container/flv/tag.go b/container/flv/tag.go
index f369bd1..0b496d6 100755
--- a/container/flv/tag.go
+++ b/container/flv/tag.go
@@ -134,6 +134,9 @@ func (tag *Tag) parseVideoHeader(b []byte) (int, error) {
 		for i := 2; i < 5; i++ {
 			tag.media.compositionTime = tag.media.compositionTime<<8 + int32(b[i])
 		}
+
+		// 24位有符号数, 扩展符号位
+		tag.media.compositionTime = tag.media.compositionTime << 8 >> 8
 		n += 4
 	}
 
-- 
2.43.0


From 529bba4e01bb5eab1cd2acc539479cc72389b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:03 +0000
Subject: [PATCH 18/73] fix: a reused FLV tag mixed in the header of the
 previous packet

---
 container/flv/tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/container/flv/tag.go b/container/flv/tag.go
index 0b496d6..9c86c11 100755
--- a/container/flv/tag.go
+++ b/container/flv/tag.go
@@ -238,6 +238,9 @@ func (tag *Tag) CompositionTime() int32 {
 
 // ParseMediaTagHeader [音视频]解析视频, 音频中的头部数据, 将数据填充到 Tag.mediat; b是Tag Data
 func (tag *Tag) ParseMediaTagHeader(b []byte, mediaType int) (int, error) {
+	// 不保留上一个包的信息
+	tag.media = mediaTag{}
+
 	// 根据媒体类型做不同解析，这里是解析器封装，错误直接透传
 	switch mediaType {
 	case packet.PktVideo:
-- 
2.43.0


From 2bd4d1b2529ed0c2ca60ec1c64a7f972e34f6a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 19/73] fix: FLV muxing removed the set-data-frame command from
 the caller's packet

---
 container/flv/muxer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/container/flv/muxer.go b/container/flv/muxer.go
index ae3d35a..cffc443 100755
--- a/container/flv/muxer.go
+++ b/container/flv/muxer.go
@@ -96,6 +96,7 @@ func (m *muxer) metadata(metadata amf.Object) ([]byte, error) {
 // Mux 将数据转换为FLV格式
 func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	var typeID uint32
+	body := p.Data
 
 	// 数据预处理
 	switch p.Type {
@@ -113,13 +114,13 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 			return err
 		}
 
-		p.Data = data
+		body = data
 	default:
 		return fmt.Errorf("unexpected type=%d", p.Type)
 	}
 
 	// Flv data length
-	dataLen := uint32(len(p.Data))
+	dataLen := uint32(len(body))
 
 	/* 1字节, [0:1]Reserved, [2]Filter(unencrypted), [3:7]TagType */
 	/* 3字节, DataSize, 其中包含2字节的media header */
@@ -138,7 +139,7 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 	}
 
 	// 长度: dataLen
-	_, err = w.Write(p.Data)
+	_, err = w.Write(body)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 05cb120106995c1cf427e16ec3e2d70c514c5759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 20/73] fix: FLV tags larger than 24 bits of size were written
 with a corrupt header

---
 container/flv/muxer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/container/flv/muxer.go b/container/flv/muxer.go
index cffc443..5bbbccf 100755
--- a/container/flv/muxer.go
+++ b/container/flv/muxer.go
@@ -119,6 +119,11 @@ func (m *muxer) mux(p *packet.Packet, pts uint32, w io.Writer) error {
 		return fmt.Errorf("unexpected type=%d", p.Type)
 	}
 
+	// DataSize只有24位
+	if len(body) > 0x00ffffff {
+		return fmt.Errorf("flv tag of %d bytes is too large", len(body))
+	}
+
 	// Flv data length
 	dataLen := uint32(len(body))
 
-- 
2.43.0


From 6977033c2c2b973ce53ce1f0a77eae14d6e35e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:06 +0000
Subject: [PATCH 21/73] fix: a refused FLV sequence header or metadata
 discarded the saved one

---
 container/flv/mixer.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/container/flv/mixer.go b/container/flv/mixer.go
index 316677a..d912e42 100644
--- a/container/flv/mixer.go
+++ b/container/flv/mixer.go
@@ -48,13 +48,12 @@ func (m *Mixer) Mux(p *packet.Packet, pts uint32) error {
 
 // SaveMetadata 保存元数据
 func (m *Mixer) SaveMetadata(md amf.Object) error {
-	m.cache.metadata.Reset()
-
 	mdPkt, err := m.muxer.metadata(md)
 	if err != nil {
 		return err
 	}
 
+	m.cache.metadata.Reset()
 	_, err = m.cache.metadata.Write(mdPkt)
 	if err != nil {
 		return err
@@ -65,20 +64,34 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 
 // SaveAVCHeader 保存AVC序列头
 func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
+	// 序列头pts为0, 作为视频的开端
+	hdr := bytes.NewBuffer(make([]byte, 0, 512))
+	err := m.muxer.mux(p, 0, hdr)
+	if err != nil {
+		return err
+	}
+
+	// 成功后才替换缓存
 	m.cache.types.IsVideo()
-	m.cache.avcSeqHdr.Reset()
+	m.cache.avcSeqHdr = hdr
 
-	// 复位缓存(序列头pts为0, 作为视频的开端)
-	return m.muxer.mux(p, 0, m.cache.avcSeqHdr)
+	return nil
 }
 
 // SaveAACHeader 保存AAC序列头
 func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
+	// 序列头pts为0, 作为音频的开端
+	hdr := bytes.NewBuffer(make([]byte, 0, 512))
+	err := m.muxer.mux(p, 0, hdr)
+	if err != nil {
+		return err
+	}
+
+	// 成功后才替换缓存
 	m.cache.types.IsAudio()
-	m.cache.aacSeqHdr.Reset()
+	m.cache.aacSeqHdr = hdr
 
-	// 复位缓存(序列头pts为0, 作为音频的开端)
-	return m.muxer.mux(p, 0, m.cache.aacSeqHdr)
+	return nil
 }
 
 // SetFlvHeader 设置FLV的头部数据，每次调用都会增加TS头部计数
-- 
2.43.0


From d0b42e0639b165a55b651ef3adeb35acd172c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 22/73] fix: AVC sequence headers piled up and kept bytes
 beyond the parameter sets

---
 parser/h264/parser.go | 58 ++++++++++++++++++++++++++++---------------
 parser/h264/type.go   |  2 --
 2 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 052869e..2bcc971 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -51,9 +51,6 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 		return errors.New("incomplete data, len(src)<9")
 	}
 
-	var sps []byte
-	var pps []byte
-
 	var seq sequenceHeader
 
 	// 填充 AVCDecoderConfigurationRecord
@@ -66,34 +63,55 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 	seq.reserved2 = src[5] >> 5
 
 	// 提取SPS
-	seq.spsNum = src[5] & 0x1f                /* [3:7]SPS数量, 一般为1 */
-	seq.spsLen = int(src[6])<<8 | int(src[7]) /* [0:15]SPS长度 */
-	if len(src[8:]) < seq.spsLen || seq.spsLen <= 0 {
-		return errors.New("incomplete sps data")
+	seq.spsNum = src[5] & 0x1f /* [3:7]SPS数量, 一般为1 */
+	sps, tmpBuf, err := p.parameterSets(src[6:], seq.spsNum)
+	if err != nil {
+		return fmt.Errorf("incomplete sps data: %v", err)
 	}
-	sps = append(sps, startCode...)
-	sps = append(sps, src[8:(8+seq.spsLen)]...)
 
 	// 提取PPS
-	tmpBuf := src[(8 + seq.spsLen):]
-	if len(tmpBuf) < 4 {
+	if len(tmpBuf) < 1 {
 		return errors.New("incomplete pps header")
 	}
-	seq.ppsNum = tmpBuf[0]                          /* PPS数量 */
-	seq.ppsLen = int(tmpBuf[1])<<8 | int(tmpBuf[2]) /* [0:15]PPS长度 */
-	if len(tmpBuf[3:]) < seq.ppsLen || seq.ppsLen <= 0 {
-		return errors.New("incomplete pps data")
+
+	seq.ppsNum = tmpBuf[0] /* PPS数量 */
+	pps, _, err := p.parameterSets(tmpBuf[1:], seq.ppsNum)
+	if err != nil {
+		return fmt.Errorf("incomplete pps data: %v", err)
 	}
-	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
 
-	// 向specificInfo填充SPS和PPS
-	p.specificInfo = append(p.specificInfo, sps...)
-	p.specificInfo = append(p.specificInfo, pps...)
+	// 向specificInfo填充SPS和PPS, 替换掉上一个序列头的数据
+	p.specificInfo = append(sps, pps...)
 
 	return nil
 }
 
+// 从src中取出num个带有16位长度的参数集(SPS或者PPS), 返回加上start code的参数集以及剩余的数据
+func (p *Parser) parameterSets(src []byte, num byte) (sets, rest []byte, err error) {
+	if num == 0 {
+		return nil, nil, errors.New("no parameter set")
+	}
+
+	for ; num > 0; num-- {
+		if len(src) < 2 {
+			return nil, nil, errors.New("incomplete length")
+		}
+
+		/* [0:15]参数集的长度 */
+		l := int(src[0])<<8 | int(src[1])
+		src = src[2:]
+		if l == 0 || len(src) < l {
+			return nil, nil, errors.New("incomplete parameter set")
+		}
+
+		sets = append(sets, startCode...)
+		sets = append(sets, src[:l]...)
+		src = src[l:]
+	}
+
+	return sets, src, nil
+}
+
 // 判断数据是否是以NALU头开始, Annex-b格式以NALU头开始
 func (p *Parser) isStartAtNaluHeader(src []byte) bool {
 	if len(src) < naluBytesLen {
diff --git a/parser/h264/type.go b/parser/h264/type.go
index c784d35..f68f212 100644
--- a/parser/h264/type.go
+++ b/parser/h264/type.go
@@ -43,6 +43,4 @@ type sequenceHeader struct {
 	reserved2            byte // 3bits
 	spsNum               byte // 5bits
 	ppsNum               byte // 8bits
-	spsLen               int
-	ppsLen               int
 }
-- 
2.43.0


From 97695ece92c51218881c37d21f49d4ff2880c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:53 +0000
Subject: [PATCH 23/73] fix: a refused AAC sequence header replaced the
 accepted one

---
 parser/aac/parser.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 3864545..6c6da1b 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -59,17 +59,19 @@ func (p *Parser) specificInfo(src []byte) error {
 		return errors.New("audio mpeg-specific, len(src)<2")
 	}
 
-	// 填充数据
-	p.gotSpecific = true
-	p.cfgInfo.objectType = (src[0] >> 3) & 0xff                    /* [0:4]编码类型 */
-	p.cfgInfo.sampleRateIndex = ((src[0] & 0x07) << 1) | src[1]>>7 /* [0:3]音频采样率索引值 */
-	p.cfgInfo.channel = (src[1] >> 3) & 0x0f                       /* [0:3]音频输出声道 */
+	sampleRateIndex := ((src[0] & 0x07) << 1) | src[1]>>7 /* [0:3]音频采样率索引值 */
 
 	// 兼容性报告
-	if p.cfgInfo.sampleRateIndex == 0xf {
+	if int(sampleRateIndex) >= len(aacRates) {
 		return errors.New("incompatible extension sampling frequency")
 	}
 
+	// 填充数据
+	p.gotSpecific = true
+	p.cfgInfo.objectType = (src[0] >> 3) & 0xff /* [0:4]编码类型 */
+	p.cfgInfo.sampleRateIndex = sampleRateIndex
+	p.cfgInfo.channel = (src[1] >> 3) & 0x0f /* [0:3]音频输出声道 */
+
 	return nil
 }
 
-- 
2.43.0


From 1f6ca39ceff4d2f55c32ebab5ffc2f8cf8804995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:54 +0000
Subject: [PATCH 24/73] fix: AAC frames too long for ADTS were written with a
 wrong length

---
 parser/aac/parser.go | 5 +++++
 parser/aac/type.go   | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 6c6da1b..4642467 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -81,6 +81,11 @@ func (p *Parser) addADTSToFrame(src []byte, w io.Writer) error {
 		return fmt.Errorf("audio data invalid, data size(%d), has specific config(%v)", len(src), p.gotSpecific)
 	}
 
+	// adts头中的帧长度只有13位
+	if len(src) > maxFrameLen {
+		return fmt.Errorf("audio data is too long, data size(%d)", len(src))
+	}
+
 	// 音频帧大小
 	aacFrameLen := uint16(len(src))
 
diff --git a/parser/aac/type.go b/parser/aac/type.go
index 99bdee1..b14a14e 100644
--- a/parser/aac/type.go
+++ b/parser/aac/type.go
@@ -2,6 +2,9 @@ package aac
 
 const adtsHeaderLen = 7
 
+// 13位的adts帧长度(含adts头)能表示的最大音频帧
+const maxFrameLen = 0x1fff - adtsHeaderLen
+
 // AAC type
 const (
 	SeqHdr = iota
-- 
2.43.0


From 58646311c3810a4354b9b9abbae75bac1ccd1346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:55 +0000
Subject: [PATCH 25/73] fix: a refused audio packet made up a sample rate

---
 parser/parser.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6c6885e..7704027 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -50,18 +50,33 @@ func (c *CodecParser) Parse(p *packet.Packet, w io.Writer) error {
 		// 根据音频编码器做不同处理
 		ah := p.Header.(packet.AudioPacketHeader)
 		if ah.IsSoundAAC() {
-			if c.aac == nil {
-				c.aac = aac.NewParser()
+			if c.aac != nil {
+				return c.aac.Parse(p.Media, ah.AACType(), w)
 			}
 
-			return c.aac.Parse(p.Media, ah.AACType(), w)
+			// 被拒绝的包不能留下解析器, 否则会报告不存在的采样率
+			a := aac.NewParser()
+			err := a.Parse(p.Media, ah.AACType(), w)
+			if err != nil {
+				return err
+			}
+
+			c.aac = a
+			return nil
 		}
 		if ah.IsSoundMP3() {
-			if c.mp3 == nil {
-				c.mp3 = mp3.NewParser()
+			if c.mp3 != nil {
+				return c.mp3.Parse(p.Media)
+			}
+
+			m := mp3.NewParser()
+			err := m.Parse(p.Media)
+			if err != nil {
+				return err
 			}
 
-			return c.mp3.Parse(p.Media)
+			c.mp3 = m
+			return nil
 		}
 
 		// 默认返回错误
-- 
2.43.0


From 4f1e582af54680a5c16e9bb61929f7779995fd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:27 +0000
Subject: [PATCH 26/73] fix: TS time stamps overflowed 32 bits and ignored
 negative composition times

---
 container/ts/mixer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index c6df3cc..e03d9c7 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -167,11 +167,12 @@ func (m *Mixer) SetTsHeader() error {
 // 视频的PTS=DTS+时间增量
 // 音频的PTS=DTS
 func (m *Mixer) Update(p *packet.Packet, pktTs, avcTs uint32) error {
-	m.dts = int64(pktTs * avcHZ)
+	m.dts = int64(pktTs) * avcHZ
 
 	switch p.Type {
 	case packet.PktVideo:
-		m.pts = m.dts + int64(avcTs*avcHZ)
+		// 时间增量是有符号的
+		m.pts = m.dts + int64(int32(avcTs))*avcHZ
 	case packet.PktAudio:
 		// 音频采样率
 		sampleRate, err := m.parser.SampleRate()
-- 
2.43.0


From 3a8eff76aa6d725beb3459b0a69b2e31c6dd19c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:28 +0000
Subject: [PATCH 27/73] fix: PES headers with PTS and DTS used the wrong
 prefixes

---
 container/ts/table/pes.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 4a86e77..2f77a9e 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -38,14 +38,17 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 	}
 
 	// pts
-	ptsB5 := pe.encodeTs(pe.PesHeader[7], pts)
+	ptsB5 := pe.encodeTs(0x80, pts)
 	copy(pe.PesHeader[9:], ptsB5[:])
 	if mt == packet.PktVideo && pts != dts {
 		pe.PesHeader[7] |= 0x40
 		pe.PesHeader[8] += 0x05
 
+		// 同时存在dts时, pts的前缀为'0011', dts的前缀为'0001'
+		pe.PesHeader[9] |= 0x10
+
 		// dts
-		dtsB5 := pe.encodeTs(pe.PesHeader[7], dts)
+		dtsB5 := pe.encodeTs(0x40, dts)
 		copy(pe.PesHeader[14:], dtsB5[:])
 	}
 
-- 
2.43.0


From bb5ef8a4cf1d4282818a8c363078dd779362c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 28/73] fix: PES time stamps were not reduced modulo 2^33

---
 container/ts/table/pes.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/container/ts/table/pes.go b/container/ts/table/pes.go
index 2f77a9e..6514905 100644
--- a/container/ts/table/pes.go
+++ b/container/ts/table/pes.go
@@ -68,9 +68,7 @@ func (pe *Pes) GeneratePesHeader(mt int, mediaDataLen int, pts, dts int64) int {
 // 33位时间戳编码成40位时间戳
 func (pe *Pes) encodeTs(flag byte, ts int64) [5]byte {
 	var val uint16
-	if ts > 0x1ffffffff {
-		ts -= 0x1ffffffff
-	}
+	ts &= 0x1ffffffff
 
 	var u33 [5]byte
 
-- 
2.43.0


From 7992a4e3856bd5697ea541944235a3f9c9f92db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:30 +0000
Subject: [PATCH 29/73] fix: TS key frames of 176 to 183 PES bytes panicked

---
 container/ts/muxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 1509302..9c0317b 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -121,7 +121,7 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 		maxPayloadLen := tsPacketLen - i
 
 		// 计算待填充的长度
-		if pesTotalLen < tsDefaultDataLen {
+		if pesTotalLen < int(maxPayloadLen) {
 			// 除去pes外, 还应填充的无效字节长度
 			remainBytes := maxPayloadLen - byte(pesTotalLen)
 
-- 
2.43.0


From 18a22049a508b2729d577b44633ee6f99c27e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 30/73] fix: the SDT continuity counter never advanced

---
 container/ts/muxer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index 9c0317b..eb36daa 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -24,6 +24,7 @@ const (
 type Muxer struct {
 	videoCc  byte /* 包递增计数器 */
 	audioCc  byte /* 包递增计数器 */
+	sdtCc    byte /* 包递增计数器 */
 	patCc    byte /* 包递增计数器 */
 	pmtCc    byte /* 包递增计数器 */
 	sdt      [tsPacketLen]byte
@@ -189,6 +190,14 @@ func (muxer *Muxer) Mux(p *packet.Packet, dts, pts int64, w io.Writer) error {
 func (muxer *Muxer) SDT(desc *bytes.Buffer) []byte {
 	sdt := table.NewSdt()
 
+	// 填写包递增计数器, 共4位, 超出则归零
+	if muxer.sdtCc > 0xf {
+		muxer.sdtCc = 0
+	}
+
+	sdt.TsHeader[3] |= muxer.sdtCc & 0x0f
+	muxer.sdtCc++
+
 	// 填充TS头
 	i := 0
 	copy(muxer.sdt[i:], sdt.TsHeader)
-- 
2.43.0


From 5605bf54ff6ab3ab643070ee9099ac1188d169e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 31/73] fix: a refused sequence header was announced in the PMT

---
 container/ts/mixer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index e03d9c7..58975c4 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -104,26 +104,26 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 
 // SaveAVCHeader 保存AVC序列头（flv->avc sequence header）
 func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
-	m.cache.types.IsVideo()
-
 	err := m.parse(p, m.cache.avcSeqHdr)
 	if err != nil {
 		return err
 	}
 
+	m.cache.types.IsVideo()
+
 	m.cache.avcSeqHdr.Reset()
 	return m.muxer.Mux(p, 0, 0, m.cache.avcSeqHdr)
 }
 
 // SaveAACHeader 保存AAC序列头（flv->aac sequence header）
 func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
-	m.cache.types.IsAudio()
-
 	err := m.parse(p, m.cache.aacSeqHdr)
 	if err != nil {
 		return err
 	}
 
+	m.cache.types.IsAudio()
+
 	m.cache.aacSeqHdr.Reset()
 	return m.muxer.Mux(p, 0, 0, m.cache.aacSeqHdr)
 }
-- 
2.43.0


From 467e1671cf9a1f63b44a12e1a0cc9d840ae5762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:32 +0000
Subject: [PATCH 32/73] fix: saving sequence headers skipped TS continuity
 counters

---
 container/ts/mixer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index 58975c4..3364cff 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -112,7 +112,8 @@ func (m *Mixer) SaveAVCHeader(p *packet.Packet) error {
 	m.cache.types.IsVideo()
 
 	m.cache.avcSeqHdr.Reset()
-	return m.muxer.Mux(p, 0, 0, m.cache.avcSeqHdr)
+	// 缓存的序列头不会输出, 不能占用输出流的包递增计数器
+	return NewMuxer().Mux(p, 0, 0, m.cache.avcSeqHdr)
 }
 
 // SaveAACHeader 保存AAC序列头（flv->aac sequence header）
@@ -125,7 +126,7 @@ func (m *Mixer) SaveAACHeader(p *packet.Packet) error {
 	m.cache.types.IsAudio()
 
 	m.cache.aacSeqHdr.Reset()
-	return m.muxer.Mux(p, 0, 0, m.cache.aacSeqHdr)
+	return NewMuxer().Mux(p, 0, 0, m.cache.aacSeqHdr)
 }
 
 // SetTsHeader 封装PAT和PMT
-- 
2.43.0


From 9740c0dd9bd06c6321a531c4412f05442aed1955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:33 +0000
Subject: [PATCH 33/73] fix: TS descriptors longer than 255 bytes were written
 with a wrong length

---
 container/ts/table/descriptor.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/container/ts/table/descriptor.go b/container/ts/table/descriptor.go
index 54c1472..48bb630 100644
--- a/container/ts/table/descriptor.go
+++ b/container/ts/table/descriptor.go
@@ -3,8 +3,12 @@ package table
 import (
 	"bytes"
 	"encoding/binary"
+	"errors"
 )
 
+// 描述内容的最大长度
+const maxDescriptorLen = 0xff
+
 // Descriptor 描述表
 type Descriptor struct {
 	data *bytes.Buffer
@@ -24,6 +28,11 @@ func (d *Descriptor) GetBuffer() *bytes.Buffer {
 
 // Service serviceType: pmt表的program pid
 func (d *Descriptor) Service(serviceType byte, serviceProviderName string, serviceName string) error {
+	// 描述长度只有一个字节
+	if len(serviceProviderName)+len(serviceName)+3 > maxDescriptorLen {
+		return errors.New("service descriptor is too long")
+	}
+
 	serviceProviderNameLen := byte(len(serviceProviderName))
 
 	serviceNameLen := byte(len(serviceName))
@@ -60,6 +69,10 @@ func (d *Descriptor) Service(serviceType byte, serviceProviderName string, servi
 // NetworkName 网络名称
 func (d *Descriptor) NetworkName(name string) error {
 	nameLen := len(name)
+	if nameLen > maxDescriptorLen {
+		return errors.New("network name descriptor is too long")
+	}
+
 	descriptorLen := byte(nameLen)
 
 	_, err := d.data.Write([]byte{0x40, descriptorLen})
-- 
2.43.0


From 9b07c510ecd484634385bc2749b267e78c0e7809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 34/73] fix: service descriptions too long for the SDT packet
 panicked

---
 container/ts/mixer.go | 6 ++++++
 container/ts/muxer.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/container/ts/mixer.go b/container/ts/mixer.go
index 3364cff..fd21bb9 100644
--- a/container/ts/mixer.go
+++ b/container/ts/mixer.go
@@ -3,6 +3,7 @@ package ts
 
 import (
 	"bytes"
+	"errors"
 	"io"
 
 	"github.com/moggle-mog/goav/container/ts/table"
@@ -98,6 +99,11 @@ func (m *Mixer) SaveMetadata(md amf.Object) error {
 		return err
 	}
 
+	// SDT表只有一个ts包
+	if desc.GetBuffer().Len() > maxSdtDescLen {
+		return errors.New("service description is too long")
+	}
+
 	m.cache.metadata = desc.GetBuffer()
 	return nil
 }
diff --git a/container/ts/muxer.go b/container/ts/muxer.go
index eb36daa..ac4ffff 100755
--- a/container/ts/muxer.go
+++ b/container/ts/muxer.go
@@ -13,6 +13,9 @@ import (
 const (
 	tsDefaultDataLen = 184
 	tsPacketLen      = 188
+
+	// 5字节ts头 + 16字节sdt头 + 描述信息 + 4字节crc32
+	maxSdtDescLen = tsPacketLen - 5 - 16 - 4
 )
 
 const (
-- 
2.43.0


From ae8fa8468fb19a62baf59ace354844aa1d8174c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:35 +0000
Subject: [PATCH 35/73] fix: a GOP held one packet more than its limit

---
 gop/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gop/array.go b/gop/array.go
index c299980..be16e06 100755
--- a/gop/array.go
+++ b/gop/array.go
@@ -26,7 +26,7 @@ func (a *array) reset() {
 // 将数据包保存到数组中
 func (a *array) write(p *packet.Packet) error {
 	// 如果关键帧间隔太长, 会导致在有限容量内不能完整存储视频
-	if len(a.packets) > maxGop {
+	if len(a.packets) >= maxGop {
 		return errors.New("the group of picture is too large")
 	}
 
-- 
2.43.0


From 4070a5888b9235489052b19f9918cde3d6a3ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:50 +0000
Subject: [PATCH 36/73] fix: SIP arguments with an empty value panicked

---
 sips/header_args.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 267ac18..3bb9e87 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -29,7 +29,7 @@ func ParseArgsPairs(value string) Args {
 			m[pair] = ""
 		} else {
 			v := pair[i+1:]
-			if v[0] == '"' && v[len(v)-1] == '"' {
+			if len(v) > 1 && v[0] == '"' && v[len(v)-1] == '"' {
 				v = v[1 : len(v)-1]
 			}
 			m[pair[:i]] = v
-- 
2.43.0


From 7ad77e87449fcb704051b25204e5c2417cec04d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:51 +0000
Subject: [PATCH 37/73] fix: empty items of SIP argument lists became arguments
 without a name

---
 sips/header_args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sips/header_args.go b/sips/header_args.go
index 3bb9e87..ef1ebb5 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -25,6 +25,10 @@ func NewArgs() Args {
 func ParseArgsPairs(value string) Args {
 	m := make(Args)
 	for _, pair := range m.ParseList(strings.TrimSpace(value)) {
+		if pair == "" {
+			// Nothing between two separators, e.g. a comma at the end of a line.
+			continue
+		}
 		if i := strings.Index(pair, "="); i < 0 {
 			m[pair] = ""
 		} else {
-- 
2.43.0


From 388d10654d4c7bd66fa0c03a434765478e32c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 38/73] fix: a SIP continuation line without a header panicked

---
 sips/sips.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sips/sips.go b/sips/sips.go
index a3eb121..392ef42 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -200,6 +200,11 @@ func (s *SIP) ParseHeader(header []byte) {
 	// multiline headers must begin by SP or TAB
 	if header[0] == '\t' || header[0] == ' ' {
 
+		// There is nothing to continue
+		if len(s.Headers[s.lastHeaderParsed]) == 0 {
+			return
+		}
+
 		header = bytes.TrimSpace(header)
 		s.Headers[s.lastHeaderParsed][len(s.Headers[s.lastHeaderParsed])-1] += fmt.Sprintf(" %s", string(header))
 		return
-- 
2.43.0


From 050ea325f8538868f92ea7ff5e1266ed8b1fae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:53 +0000
Subject: [PATCH 39/73] fix: the CRLF before a SIP body was taken for its first
 two bytes

---
 sips/sips.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sips/sips.go b/sips/sips.go
index 392ef42..f3bb496 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -134,7 +134,10 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 
 		// Empty line, we hit Body
 		if len(trim) == 0 {
-			offset -= len(line)
+			// The CRLF separating header fields and body is not part of the body
+			if !bytes.Equal(line, []byte("\r\n")) {
+				offset -= len(line)
+			}
 			break
 		}
 		line = trim
-- 
2.43.0


From 8eb76ab75250bcc49e06f7a8bf0c208c3e29f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:54 +0000
Subject: [PATCH 40/73] fix: reading a SIP body swallowed the next message

---
 sips/sips.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sips/sips.go b/sips/sips.go
index f3bb496..e7d6c11 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -79,6 +79,10 @@ func (s *SIP) fillBody(r *bufio.Reader, supplement int) ([]byte, error) {
 
 		// read one block
 		buf := make([]byte, 4*1024)
+		if size < len(buf) {
+			// the rest belongs to the next message
+			buf = buf[:size]
+		}
 
 		n, err := r.Read(buf)
 		if err != nil {
-- 
2.43.0


From 2496115df1802c228d66a81fc997852737c460f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:55 +0000
Subject: [PATCH 41/73] fix: SIP bodies cut short were accepted

---
 sips/sips.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sips/sips.go b/sips/sips.go
index e7d6c11..f8491de 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -104,6 +104,10 @@ func (s *SIP) fillBody(r *bufio.Reader, supplement int) ([]byte, error) {
 		body = append(body, buf[:n]...)
 	}
 
+	if size > 0 {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	return body, nil
 }
 
-- 
2.43.0


From 7b7ff4625510130bb6b799f56e34e37209555aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:10 +0000
Subject: [PATCH 42/73] fix: compact SIP header names were never found

---
 sips/header.go | 44 +++++++++++++++++++++++++++++---------------
 sips/sips.go   |  3 +--
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/sips/header.go b/sips/header.go
index f19592c..ba7cecd 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -31,6 +31,24 @@ var compactSipHeadersCorrespondence = map[string]string{
 	"via":                 "v",
 }
 
+// The long header name of every short one
+var longSipHeadersCorrespondence = make(map[string]string)
+
+func init() {
+	for long, compact := range compactSipHeadersCorrespondence {
+		longSipHeadersCorrespondence[compact] = long
+	}
+}
+
+// headerKey returns the name under which a header is saved: the long name in lower case
+func headerKey(headerName string) string {
+	headerName = strings.ToLower(headerName)
+	if long, ok := longSipHeadersCorrespondence[headerName]; ok {
+		return long
+	}
+	return headerName
+}
+
 // SIPHeader sip's header
 type SIPHeader map[string][]string
 
@@ -48,14 +66,12 @@ func (s SIPHeader) GetAllHeaders() map[string][]string {
 // GetHeader will return all the headers with
 // the specified name.
 func (s SIPHeader) GetHeader(headerName string) []string {
-	headerName = strings.ToLower(headerName)
+	headerName = headerKey(headerName)
 	h := make([]string, 0)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]]
-		}
+	if len(s[headerName]) > 0 {
+		return s[headerName]
+	} else if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
+		return s[compact]
 	}
 	return h
 }
@@ -64,20 +80,18 @@ func (s SIPHeader) GetHeader(headerName string) []string {
 // the specified name. If the current SIP packet has multiple
 // headers with the same name, it returns the first.
 func (s SIPHeader) GetFirstHeader(headerName string) string {
-	headerName = strings.ToLower(headerName)
-	if _, ok := s[headerName]; ok {
-		if len(s[headerName]) > 0 {
-			return s[headerName][0]
-		} else if len(s[compactSipHeadersCorrespondence[headerName]]) > 0 {
-			return s[compactSipHeadersCorrespondence[headerName]][0]
-		}
+	headerName = headerKey(headerName)
+	if len(s[headerName]) > 0 {
+		return s[headerName][0]
+	} else if compact, ok := compactSipHeadersCorrespondence[headerName]; ok && len(s[compact]) > 0 {
+		return s[compact][0]
 	}
 	return ""
 }
 
 // SetFirstHeader sets header with only one value
 func (s SIPHeader) SetFirstHeader(headerName, header string) {
-	headerName = strings.ToLower(headerName)
+	headerName = headerKey(headerName)
 	s[headerName] = []string{header}
 }
 
diff --git a/sips/sips.go b/sips/sips.go
index f8491de..ac06a05 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -6,7 +6,6 @@ import (
 	"bytes"
 	"fmt"
 	"io"
-	"strings"
 )
 
 // SIP object will contains information about decoded SIP packet.
@@ -225,7 +224,7 @@ func (s *SIP) ParseHeader(header []byte) {
 	index := bytes.Index(header, []byte(":"))
 	if index >= 0 {
 
-		headerName := strings.ToLower(string(bytes.Trim(header[:index], " ")))
+		headerName := headerKey(string(bytes.Trim(header[:index], " ")))
 		headerValue := string(bytes.Trim(header[index+1:], " "))
 
 		// Add header to object
-- 
2.43.0


From d32eb02390329bbb7ae97a10016f3babf8d09841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:11 +0000
Subject: [PATCH 43/73] fix: tabs around SIP header names and values were kept

---
 sips/sips.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index ac06a05..a65e147 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -224,8 +224,8 @@ func (s *SIP) ParseHeader(header []byte) {
 	index := bytes.Index(header, []byte(":"))
 	if index >= 0 {
 
-		headerName := headerKey(string(bytes.Trim(header[:index], " ")))
-		headerValue := string(bytes.Trim(header[index+1:], " "))
+		headerName := headerKey(string(bytes.Trim(header[:index], " \t")))
+		headerValue := string(bytes.Trim(header[index+1:], " \t"))
 
 		// Add header to object
 		s.Headers[headerName] = append(s.Headers[headerName], headerValue)
-- 
2.43.0


From f71cb2b53be4c3035bd522bfd26a4e30820b1249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 44/73] fix: SIP versions in lower case were refused in
 responses

---
 sips/request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/request.go b/sips/request.go
index ee83d33..2329059 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -171,7 +171,7 @@ func (s *SIP) ParseFirstLine(firstLine []byte) error {
 	}
 
 	// Determine the SIP packet type
-	if strings.HasPrefix(splits[0], "SIP") {
+	if strings.HasPrefix(strings.ToUpper(splits[0]), "SIP") {
 
 		// --> Response
 		s.IsResponse = true
-- 
2.43.0


From 682121d9fabd59df16fbb178072bbb2f7d73f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:13 +0000
Subject: [PATCH 45/73] fix: Via headers with other transports lost their host

---
 sips/via.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/sips/via.go b/sips/via.go
index 18c90de..3f8a12c 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -59,19 +59,12 @@ func NewSIPVia(uri string) *SIPVia {
 				state = _FieldHost
 				pos = pos + 8
 
-				str = Substring(uri, pos, pos+3)
-				if str == "UDP" || str == "TCP" || str == "TLS" {
-					sv.Trans = str
-					pos = pos + 3
-					continue
-				}
-
-				str = Substring(uri, pos, pos+4)
-				if str == "SCTP" {
-					sv.Trans = str
-					pos = pos + 4
-					continue
+				// The transport ends at the space before the host
+				for pos < len(uri) && uri[pos] != ' ' && uri[pos] != ';' {
+					sv.Trans += uri[pos : pos+1]
+					pos++
 				}
+				continue
 			}
 		case _FieldHost:
 
-- 
2.43.0


From a20aa6e7d4f1c0788412f5ee8dd15315e1b9f0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 46/73] fix: SIP display names were never parsed

---
 sips/user.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/sips/user.go b/sips/user.go
index 131d5c5..0450dc7 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -52,9 +52,12 @@ func NewSIPUser(uri string) *SIPUser {
 
 	var name, user, host, port []byte
 
-	for pos < len(uri) && uri[pos] != ';' {
+	// The display name may be quoted, a quoted name may hold any character
+	quoted := false
 
-		if uri[pos] == '>' || (uri[pos] == ' ' && state != _FieldName) {
+	for pos < len(uri) && (uri[pos] != ';' || quoted) {
+
+		if (uri[pos] == '>' || uri[pos] == ' ') && state != _FieldName {
 			state = _FieldBase
 			pos++
 			continue
@@ -79,14 +82,25 @@ func NewSIPUser(uri string) *SIPUser {
 				continue
 			}
 
-			if uri[pos] == '"' || su.URIType == "" {
+			if uri[pos] == '"' {
+				state = _FieldName
+				quoted = true
+				pos++
+				continue
+			}
+
+			// An unquoted name is followed by an address in brackets
+			if uri[pos] != '<' && strings.Contains(uri[pos:], "<") {
 				state = _FieldName
 				continue
 			}
 		case _FieldName:
 
-			if uri[pos] == '"' || uri[pos] == '<' {
+			if quoted && uri[pos] == '\\' && pos+1 < len(uri) {
+				pos++
+			} else if (quoted && uri[pos] == '"') || (!quoted && uri[pos] == '<') {
 				state = _FieldBase
+				quoted = false
 				pos++
 				continue
 			}
-- 
2.43.0


From 1c88ca24289a9f431b6fbfd408228db4454714fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 47/73] fix: SIP addresses swallowed what follows their closing
 bracket

---
 sips/user.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sips/user.go b/sips/user.go
index 0450dc7..dfa222b 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -57,7 +57,15 @@ func NewSIPUser(uri string) *SIPUser {
 
 	for pos < len(uri) && (uri[pos] != ';' || quoted) {
 
-		if (uri[pos] == '>' || uri[pos] == ' ') && state != _FieldName {
+		// The address ends here, only arguments can follow
+		if uri[pos] == '>' && state != _FieldName {
+			for pos < len(uri) && uri[pos] != ';' {
+				pos++
+			}
+			break
+		}
+
+		if uri[pos] == ' ' && state != _FieldName {
 			state = _FieldBase
 			pos++
 			continue
-- 
2.43.0


From 7c8a294ca597ecbea8e8fe0c4aacac092924c801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 48/73] fix: arguments inside the brackets of a SIP address
 kept the bracket

---
 sips/user.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sips/user.go b/sips/user.go
index dfa222b..4ed6322 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -54,11 +54,13 @@ func NewSIPUser(uri string) *SIPUser {
 
 	// The display name may be quoted, a quoted name may hold any character
 	quoted := false
+	bracket := false
 
 	for pos < len(uri) && (uri[pos] != ';' || quoted) {
 
 		// The address ends here, only arguments can follow
 		if uri[pos] == '>' && state != _FieldName {
+			bracket = false
 			for pos < len(uri) && uri[pos] != ';' {
 				pos++
 			}
@@ -74,6 +76,10 @@ func NewSIPUser(uri string) *SIPUser {
 		switch state {
 		case _FieldBase:
 
+			if uri[pos] == '<' {
+				bracket = true
+			}
+
 			str := Substring(uri, pos, pos+4)
 			if str == "sip:" || str == "tel:" {
 				state = _FieldUser
@@ -107,6 +113,7 @@ func NewSIPUser(uri string) *SIPUser {
 			if quoted && uri[pos] == '\\' && pos+1 < len(uri) {
 				pos++
 			} else if (quoted && uri[pos] == '"') || (!quoted && uri[pos] == '<') {
+				bracket = !quoted
 				state = _FieldBase
 				quoted = false
 				pos++
@@ -147,7 +154,13 @@ func NewSIPUser(uri string) *SIPUser {
 	}
 
 	if pos < len(uri) {
-		su.Args = ParseArgs(uri[pos:])
+		args := uri[pos:]
+
+		// Arguments of the address stand inside the brackets
+		if i := strings.IndexByte(args, '>'); bracket && i >= 0 {
+			args = args[:i] + args[i+1:]
+		}
+		su.Args = ParseArgs(args)
 	}
 
 	return su
-- 
2.43.0


From ebea01089ddfea59cf9ff0b48e4f51d10b2cabc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 49/73] fix: SIP and tel URIs without a user or host were
 parsed and written wrong

---
 sips/base.go    | 11 +++++++++++
 sips/request.go | 10 +++++++++-
 sips/user.go    | 10 +++++++++-
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index 57e9156..aad15da 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -1,6 +1,8 @@
 // sips from https://github.com/google/gopacket/blob/master/layers/base.go
 package sips
 
+import "strings"
+
 // field token
 const (
 	_FieldBase = iota
@@ -31,6 +33,15 @@ func (b *BaseLayer) LayerContents() []byte { return b.Contents }
 // LayerPayload returns the bytes contained within the packet layer.
 func (b *BaseLayer) LayerPayload() []byte { return b.Payload }
 
+// hasUser tells whether an address (without its scheme) has a user part
+func hasUser(addr string) bool {
+	if end := strings.IndexAny(addr, ";>"); end >= 0 {
+		addr = addr[:end]
+	}
+
+	return strings.Contains(addr, "@")
+}
+
 // Substring gets a string from a slice of bytes
 // Checks the bounds to avoid any range errors
 func Substring(v string, from, to int) string {
diff --git a/sips/request.go b/sips/request.go
index 2329059..013df38 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -59,6 +59,9 @@ func NewSIPRequest(uri string) *SIPRequest {
 				state = _FieldUser
 				sr.URIType = uri[pos : pos+3]
 				pos = pos + 4
+				if sr.URIType != "tel" && !hasUser(uri[pos:]) {
+					state = _FieldHost
+				}
 				continue
 			}
 
@@ -67,6 +70,9 @@ func NewSIPRequest(uri string) *SIPRequest {
 				state = _FieldUser
 				sr.URIType = uri[pos : pos+4]
 				pos = pos + 5
+				if !hasUser(uri[pos:]) {
+					state = _FieldHost
+				}
 				continue
 			}
 		case _FieldUser:
@@ -115,7 +121,9 @@ func (s *SIPRequest) Bytes() []byte {
 
 	// user@host
 	buf.WriteString(s.User)
-	buf.WriteString("@")
+	if len(s.User) > 0 && len(s.Host) > 0 {
+		buf.WriteString("@")
+	}
 	buf.WriteString(s.Host)
 
 	if len(s.Port) > 0 {
diff --git a/sips/user.go b/sips/user.go
index 4ed6322..8612416 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -85,6 +85,9 @@ func NewSIPUser(uri string) *SIPUser {
 				state = _FieldUser
 				su.URIType = uri[pos : pos+3]
 				pos = pos + 4
+				if su.URIType != "tel" && !hasUser(uri[pos:]) {
+					state = _FieldHost
+				}
 				continue
 			}
 
@@ -93,6 +96,9 @@ func NewSIPUser(uri string) *SIPUser {
 				state = _FieldUser
 				su.URIType = uri[pos : pos+4]
 				pos = pos + 5
+				if !hasUser(uri[pos:]) {
+					state = _FieldHost
+				}
 				continue
 			}
 
@@ -186,7 +192,9 @@ func (s *SIPUser) Bytes() []byte {
 	buf.WriteString(s.URIType)
 	buf.WriteString(":")
 	buf.WriteString(s.User)
-	buf.WriteString("@")
+	if len(s.User) > 0 && len(s.Host) > 0 {
+		buf.WriteString("@")
+	}
 	buf.WriteString(s.Host)
 
 	if len(s.Port) > 0 {
-- 
2.43.0


From e26ecc4589831aad0e2392ce90294567b5686591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:51 +0000
Subject: [PATCH 50/73] fix: IPv6 hosts in SIP addresses were cut at the first
 colon

---
 sips/base.go    | 5 +++++
 sips/request.go | 2 +-
 sips/user.go    | 2 +-
 sips/via.go     | 2 +-
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/sips/base.go b/sips/base.go
index aad15da..b9ed589 100644
--- a/sips/base.go
+++ b/sips/base.go
@@ -42,6 +42,11 @@ func hasUser(addr string) bool {
 	return strings.Contains(addr, "@")
 }
 
+// inIPv6 tells whether host is the beginning of an IPv6 reference, e.g. [2001:db8::1]
+func inIPv6(host []byte) bool {
+	return len(host) > 0 && host[0] == '[' && host[len(host)-1] != ']'
+}
+
 // Substring gets a string from a slice of bytes
 // Checks the bounds to avoid any range errors
 func Substring(v string, from, to int) string {
diff --git a/sips/request.go b/sips/request.go
index 013df38..f6b6c9a 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -85,7 +85,7 @@ func NewSIPRequest(uri string) *SIPRequest {
 			user = append(user, uri[pos])
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && !inIPv6(host) {
 				state = _FieldPort
 				pos++
 				continue
diff --git a/sips/user.go b/sips/user.go
index 8612416..0130981 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -136,7 +136,7 @@ func NewSIPUser(uri string) *SIPUser {
 			user = append(user, uri[pos])
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && !inIPv6(host) {
 				state = _FieldPort
 				pos++
 				continue
diff --git a/sips/via.go b/sips/via.go
index 3f8a12c..1edc8e7 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -68,7 +68,7 @@ func NewSIPVia(uri string) *SIPVia {
 			}
 		case _FieldHost:
 
-			if uri[pos] == ':' {
+			if uri[pos] == ':' && !inIPv6(host) {
 				state = _FieldPort
 				pos++
 				continue
-- 
2.43.0


From 5f17c0cb9aae15848dbb82d338c6e313b2971160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:35 +0000
Subject: [PATCH 51/73] fix: a new sample rate was applied to all earlier
 frames of the audio cadence

---
 container/ts/sync.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/container/ts/sync.go b/container/ts/sync.go
index c75fdf3..f1bf641 100644
--- a/container/ts/sync.go
+++ b/container/ts/sync.go
@@ -13,6 +13,7 @@ const (
 type sync struct {
 	frameNum int64 // 累计帧数
 	frameDts int64 // 基准时间
+	frameLen int64 // 单帧时长
 	syncMs   int64 // ms, 同步 |pts-dts|>syncMs 的"pts"和"dts"
 }
 
@@ -32,6 +33,13 @@ func newSync(ms int64) *sync {
 func (s *sync) syncAudioTs(dts *int64, sampleRate int) {
 	// 根据采样率, 换算音频相对于视频的时间增量
 	tsIncrement := avcHZ * 1000 * aacSL / sampleRate
+	// 采样率改变后, 从已累计的时间开始以新的单帧时长累计
+	if s.frameLen != int64(tsIncrement) {
+		s.frameDts += s.frameNum * s.frameLen
+		s.frameNum = 0
+		s.frameLen = int64(tsIncrement)
+	}
+
 	pts := s.frameDts + s.frameNum*int64(tsIncrement)
 
 	// 计算出pts和dts之间的差值
-- 
2.43.0


From b64d140c40233c3ba0bde0e8f2931d28e31593da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 52/73] fix: match SIP method and version names by their ASCII
 letters only

---
 sips/method.go  | 15 +++++++++++++--
 sips/version.go |  3 +--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/sips/method.go b/sips/method.go
index 438cd6b..36a528d 100644
--- a/sips/method.go
+++ b/sips/method.go
@@ -3,7 +3,6 @@ package sips
 
 import (
 	"fmt"
-	"strings"
 )
 
 // SIPMethod defines the different methods of the SIP Protocol
@@ -67,10 +66,22 @@ func (sm SIPMethod) String() string {
 	}
 }
 
+// upperASCII maps only the letters a to z, unlike strings.ToUpper, which also
+// maps look-alikes such as U+017F and U+0131 to ASCII letters
+func upperASCII(s string) string {
+	b := []byte(s)
+	for i, c := range b {
+		if c >= 'a' && c <= 'z' {
+			b[i] = c - ('a' - 'A')
+		}
+	}
+	return string(b)
+}
+
 // GetSIPMethod returns the constant of a SIP method
 // from its string
 func GetSIPMethod(method string) (SIPMethod, error) {
-	switch strings.ToUpper(method) {
+	switch upperASCII(method) {
 	case "INVITE":
 		return SIPMethodInvite, nil
 	case "ACK":
diff --git a/sips/version.go b/sips/version.go
index 03d236d..2866681 100644
--- a/sips/version.go
+++ b/sips/version.go
@@ -3,7 +3,6 @@ package sips
 
 import (
 	"fmt"
-	"strings"
 )
 
 // SIPVersion defines the different versions of the SIP Protocol
@@ -29,7 +28,7 @@ func (sv SIPVersion) String() string {
 
 // GetSIPVersion is used to get SIP version constant
 func GetSIPVersion(version string) (SIPVersion, error) {
-	switch strings.ToUpper(version) {
+	switch upperASCII(version) {
 	case "SIP/1.0":
 		return SIPVersion1, nil
 	case "SIP/2.0":
-- 
2.43.0


From d0d7d8dbd656f52b0ca9d6eca7b2e12a6d7e86b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 53/73] fix: leave out headers that have no values when
 serialising a SIP message

---
 sips/header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sips/header.go b/sips/header.go
index ba7cecd..ee70c6d 100644
--- a/sips/header.go
+++ b/sips/header.go
@@ -108,6 +108,11 @@ func (s SIPHeader) Bytes() []byte {
 
 	for k, v := range s {
 
+		// A header without values is absent
+		if len(v) == 0 {
+			continue
+		}
+
 		buf.WriteString(k)
 		buf.WriteString(":")
 		for _, v1 := range v {
-- 
2.43.0


From b0ae7936298864561914083bf92cb24ec7118788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 54/73] fix: keep the milliseconds of AMF dates

---
 amf/amf0.go | 2 +-
 amf/amf3.go | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/amf/amf0.go b/amf/amf0.go
index 79040ed..1b26336 100755
--- a/amf/amf0.go
+++ b/amf/amf0.go
@@ -648,7 +648,7 @@ func (ed *EnDecAMF0) encodeDate(w io.Writer, val time.Time) (int, error) {
 	n := 1
 
 	// 毫秒时间戳(没有number类型的标记)
-	err = binary.Write(w, binary.BigEndian, float64(val.Unix())*1000.0)
+	err = binary.Write(w, binary.BigEndian, float64(val.Unix())*1000.0+float64(val.Nanosecond()/1e6))
 	if err != nil {
 		return 0, err
 	}
diff --git a/amf/amf3.go b/amf/amf3.go
index df5cf93..3daecbf 100755
--- a/amf/amf3.go
+++ b/amf/amf3.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"sort"
 	"time"
@@ -234,8 +235,9 @@ func (ed *EnDecAMF3) decodeDate(r io.Reader) (time.Time, error) {
 		return time.Time{}, fmt.Errorf("unable to read double: %s", err)
 	}
 
-	// 将毫秒转换为秒
-	result := time.Unix(int64(f64/1000), 0).UTC()
+	// 将毫秒转换为秒和纳秒
+	sec := math.Floor(f64 / 1000.0)
+	result := time.Unix(int64(sec), int64((f64-sec*1000.0)*1e6)).UTC()
 	ed.deObjTable = append(ed.deObjTable, result)
 
 	return result, nil
@@ -745,7 +747,7 @@ func (ed *EnDecAMF3) encodeDate(w io.Writer, val time.Time) (int, error) {
 	}
 	n++
 
-	u64 := float64(val.Unix()) * 1000.0
+	u64 := float64(val.Unix())*1000.0 + float64(val.Nanosecond()/1e6)
 	err = binary.Write(w, binary.BigEndian, &u64)
 	if err != nil {
 		return 0, err
-- 
2.43.0


From b1a6a6458bbc81b92f420246bb28521cfb5e91c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:49 +0000
Subject: [PATCH 55/73] fix: keep every character of a quoted SIP name or
 argument when serialising

---
 sips/header_args.go | 25 +++++++++++++++++++++++--
 sips/user.go        |  3 +--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index ef1ebb5..482cb38 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -4,7 +4,6 @@ package sips
 
 import (
 	"bytes"
-	"strconv"
 	"strings"
 )
 
@@ -133,11 +132,33 @@ func (a Args) CommaString() string {
 
 	var result string
 	for key, value := range a {
-		result += key + "=" + strconv.Quote(value) + ", "
+		result += key + "=" + quote(value) + ", "
 	}
 	return result[:len(result)-2]
 }
 
+// quote returns s as a quoted string, only the quote, the backslash and the line
+// ends need an escape, any other text stands for itself.
+func quote(s string) string {
+	var b strings.Builder
+	b.WriteByte('"')
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '\r':
+			b.WriteString(`\r`)
+		case '\n':
+			b.WriteString(`\n`)
+		case '"', '\\':
+			b.WriteByte('\\')
+			b.WriteByte(s[i])
+		default:
+			b.WriteByte(s[i])
+		}
+	}
+	b.WriteByte('"')
+	return b.String()
+}
+
 // CRLFString returns the header arguments as a CRLF separated string.
 func (a Args) CRLFString() string {
 	if len(a) == 0 {
diff --git a/sips/user.go b/sips/user.go
index 0130981..d3a8eb6 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -6,7 +6,6 @@ package sips
 
 import (
 	"bytes"
-	"strconv"
 	"strings"
 )
 
@@ -182,7 +181,7 @@ func (s *SIPUser) Bytes() []byte {
 		if s.Name == "Anonymous" {
 			buf.WriteString(s.Name)
 		} else {
-			buf.WriteString(strconv.Quote(s.Name))
+			buf.WriteString(quote(s.Name))
 		}
 
 		buf.WriteString(" ")
-- 
2.43.0


From 37067964b0f023b0aa4b6c5cd0979d6003d67e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:15 +0000
Subject: [PATCH 56/73] fix: recognise SIP and tel schemes in any case

---
 sips/request.go | 9 +++++----
 sips/user.go    | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/sips/request.go b/sips/request.go
index f6b6c9a..07ab486 100644
--- a/sips/request.go
+++ b/sips/request.go
@@ -54,10 +54,11 @@ func NewSIPRequest(uri string) *SIPRequest {
 		switch state {
 		case _FieldBase:
 
-			str := Substring(uri, pos, pos+4)
+			// The scheme may be in any case
+			str := strings.ToLower(Substring(uri, pos, pos+4))
 			if str == "sip:" || str == "tel:" {
 				state = _FieldUser
-				sr.URIType = uri[pos : pos+3]
+				sr.URIType = str[:3]
 				pos = pos + 4
 				if sr.URIType != "tel" && !hasUser(uri[pos:]) {
 					state = _FieldHost
@@ -65,10 +66,10 @@ func NewSIPRequest(uri string) *SIPRequest {
 				continue
 			}
 
-			str = Substring(uri, pos, pos+5)
+			str = strings.ToLower(Substring(uri, pos, pos+5))
 			if str == "sips:" {
 				state = _FieldUser
-				sr.URIType = uri[pos : pos+4]
+				sr.URIType = str[:4]
 				pos = pos + 5
 				if !hasUser(uri[pos:]) {
 					state = _FieldHost
diff --git a/sips/user.go b/sips/user.go
index d3a8eb6..dc58de2 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -79,10 +79,11 @@ func NewSIPUser(uri string) *SIPUser {
 				bracket = true
 			}
 
-			str := Substring(uri, pos, pos+4)
+			// The scheme may be in any case
+			str := strings.ToLower(Substring(uri, pos, pos+4))
 			if str == "sip:" || str == "tel:" {
 				state = _FieldUser
-				su.URIType = uri[pos : pos+3]
+				su.URIType = str[:3]
 				pos = pos + 4
 				if su.URIType != "tel" && !hasUser(uri[pos:]) {
 					state = _FieldHost
@@ -90,10 +91,10 @@ func NewSIPUser(uri string) *SIPUser {
 				continue
 			}
 
-			str = Substring(uri, pos, pos+5)
+			str = strings.ToLower(Substring(uri, pos, pos+5))
 			if str == "sips:" {
 				state = _FieldUser
-				su.URIType = uri[pos : pos+4]
+				su.URIType = str[:4]
 				pos = pos + 5
 				if !hasUser(uri[pos:]) {
 					state = _FieldHost
-- 
2.43.0


From 531a99cd9472d84c4920df2e497f3718adeb5785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:17 +0000
Subject: [PATCH 57/73] fix: accept blanks around the equals sign of SIP
 arguments

---
 sips/header_args.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 482cb38..aa6ded1 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -31,11 +31,11 @@ func ParseArgsPairs(value string) Args {
 		if i := strings.Index(pair, "="); i < 0 {
 			m[pair] = ""
 		} else {
-			v := pair[i+1:]
+			v := strings.TrimSpace(pair[i+1:])
 			if len(v) > 1 && v[0] == '"' && v[len(v)-1] == '"' {
 				v = v[1 : len(v)-1]
 			}
-			m[pair[:i]] = v
+			m[strings.TrimSpace(pair[:i])] = v
 		}
 	}
 	return m
-- 
2.43.0


From 94dcfc48f10a1f8401b89fcdd703c2668e997f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 58/73] fix: keep SIP argument bytes that are not UTF-8

---
 sips/header_args.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index aa6ded1..0c94544 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -61,10 +61,11 @@ func (a Args) ParseList(value string) []string {
 	var list []string
 	var escape, quote bool
 	b := new(bytes.Buffer)
-	for _, r := range value {
+	for i := 0; i < len(value); i++ {
+		r := value[i]
 		switch {
 		case escape:
-			b.WriteRune(r)
+			b.WriteByte(r)
 			escape = false
 		case quote:
 			if r == '\\' {
@@ -73,16 +74,16 @@ func (a Args) ParseList(value string) []string {
 				if r == '"' {
 					quote = false
 				}
-				b.WriteRune(r)
+				b.WriteByte(r)
 			}
 		case r == ',' || r == ';' || r == '\n':
 			list = append(list, strings.TrimSpace(b.String()))
 			b.Reset()
 		case r == '"':
 			quote = true
-			b.WriteRune(r)
+			b.WriteByte(r)
 		default:
-			b.WriteRune(r)
+			b.WriteByte(r)
 		}
 	}
 	// Append last part.
-- 
2.43.0


From c8a306f414cc2c55160d2ab9ce3916c126d552c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 59/73] fix: accept blanks around the slashes, tabs and any
 case in a SIP Via value

---
 sips/via.go | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/sips/via.go b/sips/via.go
index 1edc8e7..16cf7a2 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -1,7 +1,10 @@
 // sips ref https://github.com/marv2097/siprocket/blob/master/sipVia.go
 package sips
 
-import "bytes"
+import (
+	"bytes"
+	"strings"
+)
 
 // SIPVia a single line that is in the format of a Via line
 //
@@ -39,7 +42,7 @@ func NewSIPVia(uri string) *SIPVia {
 
 	for pos < len(uri) && uri[pos] != ';' {
 
-		if uri[pos] == ' ' {
+		if isBlank(uri[pos]) {
 			pos++
 			continue
 		}
@@ -53,14 +56,13 @@ func NewSIPVia(uri string) *SIPVia {
 			// contain a branch parameter.  This parameter is used to identify the
 			// transaction created by that request.  This parameter is used by both
 			// the client and the server.
-			str := Substring(uri, pos, pos+8)
-			if str == "SIP/2.0/" {
+			if n := protocolLen(uri[pos:]); n > 0 {
 
 				state = _FieldHost
-				pos = pos + 8
+				pos = pos + n
 
-				// The transport ends at the space before the host
-				for pos < len(uri) && uri[pos] != ' ' && uri[pos] != ';' {
+				// The transport ends at the blank before the host
+				for pos < len(uri) && !isBlank(uri[pos]) && uri[pos] != ';' {
 					sv.Trans += uri[pos : pos+1]
 					pos++
 				}
@@ -92,6 +94,31 @@ func NewSIPVia(uri string) *SIPVia {
 	return sv
 }
 
+// isBlank tells whether c is white space within a line
+func isBlank(c byte) bool {
+	return c == ' ' || c == '\t'
+}
+
+// protocolLen returns the length of the protocol name and version in front of
+// the transport, which may have blanks around the slashes, 0 if they are missing
+func protocolLen(s string) int {
+	n := 0
+	for _, part := range []string{"SIP", "/", "2.0", "/"} {
+		for n < len(s) && isBlank(s[n]) {
+			n++
+		}
+		if !strings.EqualFold(Substring(s, n, n+len(part)), part) {
+			return 0
+		}
+		n += len(part)
+	}
+	for n < len(s) && isBlank(s[n]) {
+		n++
+	}
+
+	return n
+}
+
 // Bytes package SIPVia struct into slice
 func (s *SIPVia) Bytes() []byte {
 
-- 
2.43.0


From 1840ec8b84efc20e9ba94b7dc600cbc1b6c036d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:44 +0000
Subject: [PATCH 60/73] fix: accept several blanks and tabs in front of the
 method of a SIP CSeq

---
 sips/cseq.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sips/cseq.go b/sips/cseq.go
index 9e3fbde..c8e6328 100644
--- a/sips/cseq.go
+++ b/sips/cseq.go
@@ -34,9 +34,11 @@ func NewSIPCseq(uri string) *SIPCseq {
 		switch state {
 		case _FieldID:
 
-			if uri[pos] == ' ' {
+			if isBlank(uri[pos]) {
 				state = _FieldMethod
-				pos++
+				for pos < len(uri) && isBlank(uri[pos]) {
+					pos++
+				}
 				continue
 			}
 			id = append(id, uri[pos])
-- 
2.43.0


From ae605c2d7c9adf8c96d3962f0043e3191b835cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 61/73] fix: accept a tab behind the Digest scheme

---
 sips/auth.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/auth.go b/sips/auth.go
index fb2f153..1a2ea49 100644
--- a/sips/auth.go
+++ b/sips/auth.go
@@ -25,7 +25,7 @@ func NewSIPAuth(src string) *SIPAuth {
 		Src:  src,
 	}
 
-	if len(src) >= 8 && strings.ToLower(src[:7]) == "digest " {
+	if len(src) >= 8 && strings.ToLower(src[:6]) == "digest" && isBlank(src[6]) {
 
 		sa.Args = ParseArgsPairs(src[7:])
 	}
-- 
2.43.0


From 68c500deffa07c4fb379d8f187eee25f8f7b83aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:09 +0000
Subject: [PATCH 62/73] fix: skip tabs like blanks in a SIP address

---
 sips/user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sips/user.go b/sips/user.go
index dc58de2..a8dd322 100644
--- a/sips/user.go
+++ b/sips/user.go
@@ -66,7 +66,7 @@ func NewSIPUser(uri string) *SIPUser {
 			break
 		}
 
-		if uri[pos] == ' ' && state != _FieldName {
+		if isBlank(uri[pos]) && state != _FieldName {
 			state = _FieldBase
 			pos++
 			continue
-- 
2.43.0


From f3939e7494897336c577099230c1ff271b090ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:21 +0000
Subject: [PATCH 63/73] fix: read the first of several SIP Via values on one
 line

---
 sips/via.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sips/via.go b/sips/via.go
index 16cf7a2..49a4440 100644
--- a/sips/via.go
+++ b/sips/via.go
@@ -38,6 +38,9 @@ func NewSIPVia(uri string) *SIPVia {
 	}
 	pos, state := 0, _FieldBase
 
+	// Several values may share a line, the first one is the latest hop
+	uri = firstValue(uri)
+
 	var host, port []byte
 
 	for pos < len(uri) && uri[pos] != ';' {
@@ -119,6 +122,23 @@ func protocolLen(s string) int {
 	return n
 }
 
+// firstValue returns the part of s ahead of the first comma that is not quoted
+func firstValue(s string) string {
+	quoted := false
+	for i := 0; i < len(s); i++ {
+		switch {
+		case s[i] == '\\' && quoted:
+			i++
+		case s[i] == '"':
+			quoted = !quoted
+		case s[i] == ',' && !quoted:
+			return s[:i]
+		}
+	}
+
+	return s
+}
+
 // Bytes package SIPVia struct into slice
 func (s *SIPVia) Bytes() []byte {
 
-- 
2.43.0


From 9f0fe011bb7afd90331832ac40812eb889ed26d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 64/73] fix: skip line ends ahead of the first line of a SIP
 message

---
 sips/sips.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sips/sips.go b/sips/sips.go
index a65e147..90cbd6d 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -139,6 +139,12 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 		// Trim the new line delimiters
 		trim := bytes.Trim(line, "\r\n")
 
+		// Line ends ahead of the first line, e.g. to keep a connection alive, are not part of the message
+		if len(trim) == 0 && countLines == 0 {
+			buffer, offset = buffer[:0], 0
+			continue
+		}
+
 		// Empty line, we hit Body
 		if len(trim) == 0 {
 			// The CRLF separating header fields and body is not part of the body
-- 
2.43.0


From 13605e248e77e48e69e138781a697815202bfd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:53 +0000
Subject: [PATCH 65/73] fix: use the NAL unit length size that the AVC sequence
 header declares

---
 parser/h264/parser.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/parser/h264/parser.go b/parser/h264/parser.go
index 2bcc971..614cc64 100755
--- a/parser/h264/parser.go
+++ b/parser/h264/parser.go
@@ -9,6 +9,7 @@ import (
 
 // Parser H264解析器
 type Parser struct {
+	naluLen      int           /* 序列头声明的nalu长度字段的字节数 */
 	specificInfo []byte        /* {0: sps, 1: pps}, 均包含start code */
 	spsPps       *bytes.Buffer /* sps和pps共用, 均包含start code */
 }
@@ -16,7 +17,8 @@ type Parser struct {
 // NewParser 初始化h264解析器(pps/sps)
 func NewParser() *Parser {
 	return &Parser{
-		spsPps: bytes.NewBuffer(make([]byte, maxSpsPpsLen)),
+		naluLen: naluBytesLen,
+		spsPps:  bytes.NewBuffer(make([]byte, maxSpsPpsLen)),
 	}
 }
 
@@ -82,6 +84,7 @@ func (p *Parser) parseSpecificInfo(src []byte) error {
 
 	// 向specificInfo填充SPS和PPS, 替换掉上一个序列头的数据
 	p.specificInfo = append(sps, pps...)
+	p.naluLen = int(seq.naluLen)
 
 	return nil
 }
@@ -123,12 +126,12 @@ func (p *Parser) isStartAtNaluHeader(src []byte) bool {
 
 // [AVCC格式] 提取NALU的长度
 func (p *Parser) naluSize(src []byte) (int, error) {
-	if len(src) < naluBytesLen {
+	if len(src) < p.naluLen {
 		return 0, errors.New("[hvcc]incomplete nalu data")
 	}
 
-	// [0:31] nalu单元的长度，不包括长度字段
-	buf := src[:naluBytesLen]
+	// nalu单元的长度，不包括长度字段
+	buf := src[:p.naluLen]
 	l := len(buf)
 
 	var size = 0
@@ -143,7 +146,7 @@ func (p *Parser) naluSize(src []byte) (int, error) {
 func (p *Parser) getAnnexbH264(src []byte, w io.Writer) error {
 	dataSize := len(src)
 
-	if dataSize == 0 || dataSize < naluBytesLen {
+	if dataSize == 0 || dataSize < p.naluLen {
 		return errors.New("incomplete h264 header")
 	}
 
@@ -172,8 +175,8 @@ func (p *Parser) getAnnexbH264(src []byte, w io.Writer) error {
 			return errors.New("invalid nalu body size")
 		}
 
-		index += naluBytesLen
-		dataSize -= naluBytesLen
+		index += p.naluLen
+		dataSize -= p.naluLen
 
 		// 紧跟着 Nalu size 后面的是 NALU 数据，没有四个字节 start code，直接从 h264 头开始
 		if dataSize < nalLen {
-- 
2.43.0


From cd837c9c1b2c4c254f209643ac55e22d955921f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:13 +0000
Subject: [PATCH 66/73] fix: write the core object type of HE-AAC into ADTS
 headers

---
 parser/aac/parser.go | 27 ++++++++++++++++++++++++++-
 parser/aac/type.go   |  6 ++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index 4642467..bfa33dc 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -66,15 +66,40 @@ func (p *Parser) specificInfo(src []byte) error {
 		return errors.New("incompatible extension sampling frequency")
 	}
 
+	// HE-AAC的编码类型不能写入adts头(只有2位), 使用其核心的编码类型
+	objectType := (src[0] >> 3) & 0xff /* [0:4]编码类型 */
+	if objectType == aotSBR || objectType == aotPS {
+		core, err := coreObjectType(src)
+		if err != nil {
+			return err
+		}
+		objectType = core
+	}
+
 	// 填充数据
 	p.gotSpecific = true
-	p.cfgInfo.objectType = (src[0] >> 3) & 0xff /* [0:4]编码类型 */
+	p.cfgInfo.objectType = objectType
 	p.cfgInfo.sampleRateIndex = sampleRateIndex
 	p.cfgInfo.channel = (src[1] >> 3) & 0x0f /* [0:3]音频输出声道 */
 
 	return nil
 }
 
+// coreObjectType 提取HE-AAC核心的编码类型, 位于扩展采样率之后
+func coreObjectType(src []byte) (byte, error) {
+	index := 2
+
+	// 扩展采样率索引为15时, 其后是24位的采样率
+	if len(src) > 2 && ((src[1]&0x07)<<1|src[2]>>7) == 0xf {
+		index += 3
+	}
+	if len(src) <= index {
+		return 0, errors.New("audio mpeg-specific, incomplete extension")
+	}
+
+	return (src[index] >> 2) & 0x1f, nil
+}
+
 // 向音频原始帧中插入adts(audio data transport stream)头, 形成adts帧, 写入w中
 func (p *Parser) addADTSToFrame(src []byte, w io.Writer) error {
 	if len(src) == 0 || !p.gotSpecific {
diff --git a/parser/aac/type.go b/parser/aac/type.go
index b14a14e..3b51752 100644
--- a/parser/aac/type.go
+++ b/parser/aac/type.go
@@ -28,3 +28,9 @@ type mpegCfgInfo struct {
 	exceptionLogTs  int64
 	extension       *mpegExtension
 }
+
+// HE-AAC的编码类型
+const (
+	aotSBR = 5  // HE-AAC v1
+	aotPS  = 29 // HE-AAC v2
+)
-- 
2.43.0


From 035dc513c79d19a517dd1bf54f26ecd2388ad8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:03 +0000
Subject: [PATCH 67/73] fix: refuse AAC configurations that an ADTS header
 cannot carry

---
 parser/aac/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/aac/parser.go b/parser/aac/parser.go
index bfa33dc..0606cc9 100755
--- a/parser/aac/parser.go
+++ b/parser/aac/parser.go
@@ -76,11 +76,18 @@ func (p *Parser) specificInfo(src []byte) error {
 		objectType = core
 	}
 
+	channel := (src[1] >> 3) & 0x0f /* [0:3]音频输出声道 */
+
+	// ADTS头只能表示编码类型1~4, 声道0~7
+	if objectType < 1 || objectType > 4 || channel > 7 {
+		return fmt.Errorf("incompatible object type(%d) or channel configuration(%d)", objectType, channel)
+	}
+
 	// 填充数据
 	p.gotSpecific = true
 	p.cfgInfo.objectType = objectType
 	p.cfgInfo.sampleRateIndex = sampleRateIndex
-	p.cfgInfo.channel = (src[1] >> 3) & 0x0f /* [0:3]音频输出声道 */
+	p.cfgInfo.channel = channel
 
 	return nil
 }
-- 
2.43.0


From 7867092e365b7875ecea854f0d4e2a7d08093905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 68/73] fix: do not panic on a negative number of cached groups

---
 gop/gop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gop/gop.go b/gop/gop.go
index cffe9a7..d2bb3ea 100755
--- a/gop/gop.go
+++ b/gop/gop.go
@@ -17,6 +17,10 @@ type gopCache struct {
 // newGopCache GOP缓存
 // num不能等于0，否则会让播放器收到无法解码的H264包
 func newGopCache(num int) *gopCache {
+	if num < 0 {
+		num = 0
+	}
+
 	return &gopCache{
 		len:   0,
 		cap:   num,
-- 
2.43.0


From f5de93aea05193c8994ef1ed62733b09f59d2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 69/73] fix: report the end of the stream between two SIP
 messages as io.EOF

---
 sips/sips.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sips/sips.go b/sips/sips.go
index 90cbd6d..98752a0 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -170,6 +170,11 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 		countLines++
 	}
 
+	// The stream ended between two messages
+	if countLines == 0 {
+		return io.EOF
+	}
+
 	s.fillHeader()
 
 	// The size of the message-body does not include the CRLF separating
-- 
2.43.0


From 1083ae611387c4a58ae5f4705a29345914f82592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 70/73] fix: parse SIP lines that are longer than the buffer of
 the reader

---
 sips/sips.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sips/sips.go b/sips/sips.go
index 98752a0..297eabf 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -121,13 +121,13 @@ func (s *SIP) Parse(r *bufio.Reader) error {
 	for {
 
 		// Read next line
-		line, err := r.ReadSlice(byte('\n'))
+		line, err := r.ReadBytes(byte('\n'))
 		if err != nil {
 			if err != io.EOF {
 				return err
 			}
 
-			// ReadSlice返回EOF时line可能不为空，因此仍需收尾
+			// ReadBytes返回EOF时line可能不为空，因此仍需收尾
 			if len(line) == 0 {
 				break
 			}
-- 
2.43.0


From 696be18b35b8e659ac95ed96f76625247ab7fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:08 +0000
Subject: [PATCH 71/73] fix: refuse a negative Content-Length

---
 sips/sips.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sips/sips.go b/sips/sips.go
index 297eabf..65c99ff 100644
--- a/sips/sips.go
+++ b/sips/sips.go
@@ -72,6 +72,9 @@ func (s *SIP) fillBody(r *bufio.Reader, supplement int) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if size < 0 {
+		return nil, fmt.Errorf("negative content length %d", size)
+	}
 	size -= supplement
 
 	for size > 0 {
-- 
2.43.0


From afecccfe2b1c66b727b0aa096396eec73c1de354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 72/73] fix: do not start a cached group with an end of
 sequence packet

---
 gop/cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gop/cache.go b/gop/cache.go
index 77f6453..4ab9b8e 100755
--- a/gop/cache.go
+++ b/gop/cache.go
@@ -31,6 +31,11 @@ func (c *Cache) WriteVideo(p *packet.Packet) error {
 		return nil
 	}
 
+	// 序列结束包没有图像, 不能作为一个GOP的开始
+	if vh.IsCodecAvc() && vh.IsEndOfSeq() {
+		return nil
+	}
+
 	// 缓存视频数据包(不会包含序列头)
 	if vh.IsKeyFrame() || vh.IsInterFrame() {
 		return c.Gop.Write(p, vh.IsKeyFrame())
-- 
2.43.0


From 1d22e691ea01d4545bfd28bae2a04d5d2789dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:49 +0000
Subject: [PATCH 73/73] fix: quote parameter values that would not be read back
 otherwise

---
 sips/header_args.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sips/header_args.go b/sips/header_args.go
index 0c94544..d2abcce 100644
--- a/sips/header_args.go
+++ b/sips/header_args.go
@@ -111,14 +111,14 @@ func (a Args) Set(key, value string) {
 }
 
 // SemicolonString returns the header arguments as a semicolon
-// separated unquoted strings with a leading semicolon.
+// separated strings with a leading semicolon, quoted where necessary.
 func (a Args) SemicolonString() string {
 	var result string
 	for key, value := range a {
 		if value == "" {
 			result += ";" + key
 		} else {
-			result += ";" + key + "=" + value
+			result += ";" + key + "=" + argValue(value)
 		}
 	}
 	return result
@@ -138,6 +138,17 @@ func (a Args) CommaString() string {
 	return result[:len(result)-2]
 }
 
+// argValue returns a value as it stands behind its key: it has to be quoted when
+// it contains anything that would end it or be read as something else.
+func argValue(s string) string {
+	for i := 0; i < len(s); i++ {
+		if s[i] <= ' ' || s[i] >= 0x7f || strings.IndexByte("\"\\,;<>", s[i]) >= 0 {
+			return quote(s)
+		}
+	}
+	return s
+}
+
 // quote returns s as a quoted string, only the quote, the backslash and the line
 // ends need an escape, any other text stands for itself.
 func quote(s string) string {
@@ -168,7 +179,7 @@ func (a Args) CRLFString() string {
 
 	var result string
 	for key, value := range a {
-		result += key + "=" + value + "\r\n"
+		result += key + "=" + argValue(value) + "\r\n"
 	}
 	return result
 }
-- 
2.43.0

