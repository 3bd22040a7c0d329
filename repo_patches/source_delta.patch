From 018c7f2314dbed797550ecdf9082f04c157d2e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:48 +0000
Subject: [PATCH 01/32] fix: take a CRLF line break after a comment or sub
 template tag as one line break

---
 v2/xtemplate.go | 6 +++---
 xtemplate.go    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 72bd540..475db68 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -137,7 +137,7 @@ func (t *XTemplate) compile(data string) error {
 		`(?s)` + // . is multiline
 
 			// ==== COMENTS
-			`(%)--(.*?)--%(\n|\r|\r\n|\n\r)?` + // index based 1
+			`(%)--(.*?)--%(\r\n|\n\r|\n|\r)?` + // index based 1
 
 			// ==== LANGUAGE INJECTION
 			`|(#)#([a-zA-Z0-9-_\.]+?)##` + // index based 4
@@ -150,8 +150,8 @@ func (t *XTemplate) compile(data string) error {
 			`|(\{)\{([a-zA-Z0-9-_\=\>\:\|\.]+?)\}\}` + // index based 14
 
 			// ==== NESTED ELEMENTS (SUB TEMPLATES)
-			`|\[\[(\])\](\n|\r|\r\n|\n\r)?` + // index based 16
-			`|(\[)\[([a-z0-9\|\.\-_]+?)\]\](\n|\r|\r\n|\n\r)?` // index based 18
+			`|\[\[(\])\](\r\n|\n\r|\n|\r)?` + // index based 16
+			`|(\[)\[([a-z0-9\|\.\-_]+?)\]\](\r\n|\n\r|\n|\r)?` // index based 18
 
 	codex := regexp.MustCompile(code)
 	indexes := codex.FindAllStringIndex(data, -1)
diff --git a/xtemplate.go b/xtemplate.go
index 6451339..824d6b0 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -129,7 +129,7 @@ func (t *XTemplate) compile(data string) error {
 		`(?s)` + // . is multiline
 
 			// ==== COMENTS
-			`(%)--(.*?)--%(\n|\r|\r\n|\n\r)?` + // index based 1
+			`(%)--(.*?)--%(\r\n|\n\r|\n|\r)?` + // index based 1
 
 			// ==== LANGUAGE INJECTION
 			`|(#)#(.+?)##` + // index based 4
@@ -142,8 +142,8 @@ func (t *XTemplate) compile(data string) error {
 			`|(\{)\{(.+?)\}\}` + // index based 14
 
 			// ==== NESTED ELEMENTS (SUB TEMPLATES)
-			`|\[\[(\])\](\n|\r|\r\n|\n\r)?` + // index based 16
-			`|(\[)\[([a-z0-9\|\.\-_]+?)\]\](\n|\r|\r\n|\n\r)?` // index based 18
+			`|\[\[(\])\](\r\n|\n\r|\n|\r)?` + // index based 16
+			`|(\[)\[([a-z0-9\|\.\-_]+?)\]\](\r\n|\n\r|\n|\r)?` // index based 18
 
 	codex := regexp.MustCompile(code)
 	indexes := codex.FindAllStringIndex(data, -1)
-- 
2.43.0


From 21d503c51f3976271f5cd1fd1fe04ea4ff16d4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:48 +0000
Subject: [PATCH 02/32] fix: do not render the template of a ?? conditional
 when its condition is not met (v2)

---
 v2/xtemplate.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 475db68..7b8f02f 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -466,10 +466,7 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 			if value == nil || fmt.Sprint(value) == "" {
 				tmp := t.GetTemplate(subtemplateid + ".none")
 				if tmp != nil {
-					subt = tmp
-				}
-				if subt != nil {
-					substr := subt.injector(datacol, language)
+					substr := tmp.injector(datacol, language)
 					injected = append(injected, substr)
 				}
 			}
-- 
2.43.0


From 3f8c2d4c7b43a088472aab96b7d14fc75f62089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:48 +0000
Subject: [PATCH 03/32] fix: @@ loops do not write .counter into the records of
 the caller (v2)

---
 v2/xtemplate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 7b8f02f..5234742 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -408,12 +408,14 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 								tmp = subt
 							}
 							dcl, _ := cl.Get(i)
-							dcl.Set(".counter", i+1)
 							datacol.Push(dcl)
+							// the counter has its own level, the records of the user are not modified
+							datacol.Push(&XDataset{".counter": i + 1})
 							substr := tmp.injector(datacol, language)
 							injected = append(injected, substr)
 							// unstack extra data
 							datacol.Pop()
+							datacol.Pop()
 						}
 					} else {
 						var tmp *XTemplate
-- 
2.43.0


From 2f3bd3e547c1f5a3d4664056eeca21a31b262c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:11 +0000
Subject: [PATCH 04/32] fix: render the .none template of a @@ loop on an empty
 collection (v1)

---
 xtemplate.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xtemplate.go b/xtemplate.go
index 824d6b0..0f0e54a 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -369,7 +369,7 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 			if subt != nil {
 				if datacol != nil {
 					cl, _ := datacol.GetCollection(subdataid)
-					if cl != nil {
+					if cl != nil && cl.Count() > 0 {
 						for i := 0; i < cl.Count(); i++ {
 							var tmp *XTemplate
 							tmp = t.GetTemplate(subtemplateid + ".key." + strconv.Itoa(i))
@@ -398,11 +398,13 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 					} else {
 						var tmp *XTemplate
 						tmp = t.GetTemplate(subtemplateid + ".none")
-						if tmp == nil {
+						if tmp == nil && cl == nil {
 							tmp = subt
 						}
-						substr := tmp.injector(datacol, language)
-						injected = append(injected, substr)
+						if tmp != nil {
+							substr := tmp.injector(datacol, language)
+							injected = append(injected, substr)
+						}
 					}
 				}
 			}
-- 
2.43.0


From 3df36aa1bae0315bb039cdc16504b11b926c9f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:11 +0000
Subject: [PATCH 05/32] fix: ?? conditionals reach the .none template and
 accept data sets as values (v1)

---
 xtemplate.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xtemplate.go b/xtemplate.go
index 0f0e54a..6643bd3 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -428,6 +428,7 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 				if ok {
 					withds = true
 					datacol.Push(ds)
+					svalue = "array"
 				} else {
 					svalue = fmt.Sprint(value)
 				}
@@ -444,6 +445,13 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 					datacol.Pop()
 				}
 			}
+			if value == nil || fmt.Sprint(value) == "" {
+				tmp := t.GetTemplate(subtemplateid + ".none")
+				if tmp != nil {
+					substr := tmp.injector(datacol, language)
+					injected = append(injected, substr)
+				}
+			}
 		case MetaDump:
 			if datacol != nil {
 				if v.Data == "dump" || v.Data == "list" {
-- 
2.43.0


From 8803b74b22798e9cebc2c1aa5bd8734035cdb684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:22 +0000
Subject: [PATCH 06/32] fix: GetCollection of a collection does not panic on
 another type of value (v1)

---
 xdataset.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xdataset.go b/xdataset.go
index 671bc7c..d941af3 100644
--- a/xdataset.go
+++ b/xdataset.go
@@ -568,7 +568,10 @@ func (d *XDatasetCollection) GetCollection(key string) (XDatasetCollectionDef, b
 	v, ok := d.GetData(key)
 	// Verify v IS actually a XDatasetCollectionDef to avoid the error
 	if ok {
-		return v.(XDatasetCollectionDef), true
+		dsd, ok2 := v.(XDatasetCollectionDef)
+		if ok2 {
+			return dsd, true
+		}
 	}
 	return nil, false
 }
-- 
2.43.0


From 5a2a47475ce51227c3d8ffbdfa138321c90117be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:17 +0000
Subject: [PATCH 07/32] fix: a template source with a Start/End mismatch leaves
 the loaded template unchanged

---
 v2/xtemplate.go | 6 +++++-
 xtemplate.go    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 5234742..bf71480 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -205,7 +205,8 @@ func (t *XTemplate) compile(data string) error {
 	// second pass: all the sub templates into the Subtemplates
 	startpointers := []int{}
 	subtemplates := []*XTemplate{}
-	actualtemplate := t
+	root := &XTemplate{} // t is not touched until everything is known to be right
+	actualtemplate := root
 	for i, x := range compiled {
 		if x.ParamType == MetaTemplateStart {
 			startpointers = append(startpointers, i)
@@ -269,6 +270,9 @@ func (t *XTemplate) compile(data string) error {
 
 	compiled = compiled[:currentpointer]
 	t.Root = &compiled
+	for name, subtemplate := range root.SubTemplates {
+		t.AddTemplate(name, subtemplate)
+	}
 	return nil
 }
 
diff --git a/xtemplate.go b/xtemplate.go
index 6643bd3..536357b 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -197,7 +197,8 @@ func (t *XTemplate) compile(data string) error {
 	// second pass: all the sub templates into the Subtemplates
 	startpointers := []int{}
 	subtemplates := []*XTemplate{}
-	actualtemplate := t
+	root := &XTemplate{} // t is not touched until everything is known to be right
+	actualtemplate := root
 	for i, x := range compiled {
 		if x.ParamType == MetaTemplateStart {
 			startpointers = append(startpointers, i)
@@ -261,6 +262,9 @@ func (t *XTemplate) compile(data string) error {
 
 	compiled = compiled[:currentpointer]
 	t.Root = &compiled
+	for name, subtemplate := range root.SubTemplates {
+		t.AddTemplate(name, subtemplate)
+	}
 	return nil
 }
 
-- 
2.43.0


From 982d973e692d61b1910cc2cd45c0a4fbfdcf34d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:17 +0000
Subject: [PATCH 08/32] fix: references with a data level or an indirect name
 do not panic without data

---
 v2/xtemplate.go | 7 +++++--
 xtemplate.go    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index bf71480..af45e80 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -340,7 +340,10 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 			if len(xid) == 3 {
 				field := xid[1]
 				prefix := xid[2]
-				value, _ := datacol.GetDataString(field)
+				value := ""
+				if datacol != nil {
+					value, _ = datacol.GetDataString(field)
+				}
 				subt := t.GetTemplate(prefix + value)
 				if subt != nil {
 					substr := subt.injector(datacol, language)
@@ -360,7 +363,7 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 				subt := t.GetTemplate(template)
 				if subt != nil {
 					withds := false
-					if len(xid) == 2 {
+					if len(xid) == 2 && datacol != nil {
 						dcl, _ := datacol.GetData(xid[1])
 						ds, ok := dcl.(XDatasetDef)
 						if ok {
diff --git a/xtemplate.go b/xtemplate.go
index 536357b..87675ff 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -321,7 +321,10 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 			if len(xid) == 3 {
 				field := xid[1]
 				prefix := xid[2]
-				value, _ := datacol.GetDataString(field)
+				value := ""
+				if datacol != nil {
+					value, _ = datacol.GetDataString(field)
+				}
 				subt := t.GetTemplate(prefix + value)
 				if subt != nil {
 					substr := subt.injector(datacol, language)
@@ -341,7 +344,7 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 				subt := t.GetTemplate(template)
 				if subt != nil {
 					withds := false
-					if len(xid) == 2 {
+					if len(xid) == 2 && datacol != nil {
 						dcl, _ := datacol.GetData(xid[1])
 						ds, ok := dcl.(XDatasetDef)
 						if ok {
-- 
2.43.0


From aed3d3c8621127a623b95b0f0d98a61e88b4dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:17 +0000
Subject: [PATCH 09/32] fix: cloning a template links the cloned sub templates
 to the clone, not the original ones

---
 v2/xtemplate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index af45e80..7312e9b 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -536,8 +536,9 @@ func (t *XTemplate) Clone() *XTemplate {
 	if t.SubTemplates != nil {
 		newsubtemplates := map[string]*XTemplate{}
 		for id, xt := range t.SubTemplates {
-			newsubtemplates[id] = xt.Clone()
-			xt.Father = cloned
+			newsubtemplate := xt.Clone()
+			newsubtemplate.Father = cloned
+			newsubtemplates[id] = newsubtemplate
 		}
 		cloned.SubTemplates = newsubtemplates
 	}
-- 
2.43.0


From 5763f54f1b2787b6b6bff17c978c46d3da7f0601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:52 +0000
Subject: [PATCH 10/32] fix: GetDataString of a thread safe collection returns
 an empty string for a nil value

---
 v2/xdatasetcollectionts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 2d4838d..f01f0e0 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -100,6 +100,9 @@ func (dc *XDatasetCollectionTS) GetData(key string) (interface{}, bool) {
 func (dc *XDatasetCollectionTS) GetDataString(key string) (string, bool) {
 	v, ok := dc.GetData(key)
 	if ok {
+		if v == nil {
+			return "", true
+		}
 		return fmt.Sprint(v), true
 	}
 	return "", false
-- 
2.43.0


From 84343a7b8a6751edf0304753c69467ee085bbcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:52 +0000
Subject: [PATCH 11/32] fix: GetCollection of a thread safe collection does not
 panic on another type of value

---
 v2/xdatasetcollectionts.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index f01f0e0..cd959e6 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -153,7 +153,10 @@ func (dc *XDatasetCollectionTS) GetCollection(key string) (XDatasetCollectionDef
 	v, ok := dc.GetData(key)
 	// Verify v IS actually a XDatasetCollectionDef to avoid the error
 	if ok {
-		return v.(XDatasetCollectionDef), true
+		dsd, ok2 := v.(XDatasetCollectionDef)
+		if ok2 {
+			return dsd, true
+		}
 	}
 	return nil, false
 }
-- 
2.43.0


From 0cf52e0137108572ee261cceb51e729d16cdf5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:52 +0000
Subject: [PATCH 12/32] fix: GetData and Clone of a thread safe collection work
 on one consistent content

---
 v2/xdatasetcollectionts.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index cd959e6..122c36a 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -82,13 +82,10 @@ func (dc *XDatasetCollectionTS) Get(index int) (XDatasetDef, bool) {
 // GetData will retrieve the first available data identified by key from the collection ordered by index
 func (dc *XDatasetCollectionTS) GetData(key string) (interface{}, bool) {
 	dc.mutex.RLock()
-	l := len(dc.data) - 1
+	data := append([]XDatasetDef{}, dc.data...)
 	dc.mutex.RUnlock()
-	for i := l; i >= 0; i-- {
-		dc.mutex.RLock()
-		dcc := dc.data[i]
-		dc.mutex.RUnlock()
-		val, ok := dcc.Get(key)
+	for i := len(data) - 1; i >= 0; i-- {
+		val, ok := data[i].Get(key)
 		if ok {
 			return val, true
 		}
@@ -164,6 +161,8 @@ func (dc *XDatasetCollectionTS) GetCollection(key string) (XDatasetCollectionDef
 // Clone will make a full copy of the object into memory
 func (dc *XDatasetCollectionTS) Clone() XDatasetCollectionDef {
 	cloned := &XDatasetCollectionTS{}
+	dc.mutex.RLock()
+	defer dc.mutex.RUnlock()
 	for _, val := range dc.data {
 		cloned.data = append(cloned.data, val.Clone())
 	}
-- 
2.43.0


From c9f35a6124e7eaa05bd6abb914a582bfd7cbbee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:52 +0000
Subject: [PATCH 13/32] fix: a panic inside a thread safe collection does not
 leave it locked

---
 v2/xdatasetcollectionts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 122c36a..aab7c76 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -17,10 +17,10 @@ type XDatasetCollectionTS struct {
 func (dc *XDatasetCollectionTS) String() string {
 	str := "XDatasetCollectionTS["
 	dc.mutex.RLock()
+	defer dc.mutex.RUnlock()
 	for key, val := range dc.data {
 		str += strconv.Itoa(key) + ":" + fmt.Sprint(val) + " "
 	}
-	dc.mutex.RUnlock()
 	str += "]"
 	return str
 }
@@ -40,9 +40,9 @@ func (dc *XDatasetCollectionTS) Unshift(data XDatasetDef) {
 // Shift will remove the element at the beginning of the collection
 func (dc *XDatasetCollectionTS) Shift() XDatasetDef {
 	dc.mutex.Lock()
+	defer dc.mutex.Unlock()
 	data := dc.data[0]
 	dc.data = dc.data[1:]
-	dc.mutex.Unlock()
 	return data
 }
 
@@ -56,9 +56,9 @@ func (dc *XDatasetCollectionTS) Push(data XDatasetDef) {
 // Pop will remove the element at the end of the collection
 func (dc *XDatasetCollectionTS) Pop() XDatasetDef {
 	dc.mutex.Lock()
+	defer dc.mutex.Unlock()
 	data := dc.data[len(dc.data)-1]
 	dc.data = dc.data[:len(dc.data)-1]
-	dc.mutex.Unlock()
 	return data
 }
 
-- 
2.43.0


From db53d04a68bdb737c6fbc662a1c20ecf265f372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:52 +0000
Subject: [PATCH 14/32] fix: a panic inside the data of a thread safe data set
 does not leave it locked

---
 v2/xdatasetts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v2/xdatasetts.go b/v2/xdatasetts.go
index 75b5636..0933ab4 100644
--- a/v2/xdatasetts.go
+++ b/v2/xdatasetts.go
@@ -37,8 +37,8 @@ func (ds *XDatasetTS) GoString() string {
 // Set will add a variable key with value data to the XDatasetTS
 func (ds *XDatasetTS) Set(key string, data interface{}) {
 	ds.mutex.Lock()
+	defer ds.mutex.Unlock()
 	ds.data.Set(key, data)
-	ds.mutex.Unlock()
 }
 
 // Get will read the value of the key variable
@@ -139,15 +139,15 @@ func (ds *XDatasetTS) GetTimeCollection(key string) ([]time.Time, bool) {
 // Del will deletes the variable
 func (ds *XDatasetTS) Del(key string) {
 	ds.mutex.Lock()
+	defer ds.mutex.Unlock()
 	ds.data.Del(key)
-	ds.mutex.Unlock()
 }
 
 // Clone will creates a totally new data memory cloned from this object
 func (ds *XDatasetTS) Clone() XDatasetDef {
 	cloned := &XDatasetTS{}
 	ds.mutex.RLock()
+	defer ds.mutex.RUnlock()
 	cloned.data = ds.data.Clone()
-	ds.mutex.RUnlock()
 	return cloned
 }
-- 
2.43.0


From be0db58571f233892aa96b70365c46d537523609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:52 +0000
Subject: [PATCH 15/32] fix: a XDatasetTS built without data is an empty data
 set instead of panicking

---
 v2/xdatasetts.go | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/v2/xdatasetts.go b/v2/xdatasetts.go
index 0933ab4..9bda895 100644
--- a/v2/xdatasetts.go
+++ b/v2/xdatasetts.go
@@ -20,24 +20,35 @@ func NewXDatasetTS(maindata XDatasetDef) *XDatasetTS {
 	return ds
 }
 
+// content gives the encapsulated data, which is empty until something is set in a XDatasetTS built without data
+func (ds *XDatasetTS) content() XDatasetDef {
+	if ds.data == nil {
+		return &XDataset{}
+	}
+	return ds.data
+}
+
 // String will transform the XDataset into a readable string for humans
 func (ds *XDatasetTS) String() string {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.String()
+	return ds.content().String()
 }
 
 // GoString will transform the XDataset into a readable string for humans
 func (ds *XDatasetTS) GoString() string {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GoString()
+	return ds.content().GoString()
 }
 
 // Set will add a variable key with value data to the XDatasetTS
 func (ds *XDatasetTS) Set(key string, data interface{}) {
 	ds.mutex.Lock()
 	defer ds.mutex.Unlock()
+	if ds.data == nil {
+		ds.data = &XDataset{}
+	}
 	ds.data.Set(key, data)
 }
 
@@ -45,28 +56,28 @@ func (ds *XDatasetTS) Set(key string, data interface{}) {
 func (ds *XDatasetTS) Get(key string) (interface{}, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.Get(key)
+	return ds.content().Get(key)
 }
 
 // GetDataset will read the value of the key variable as a XDatasetDef cast type
 func (ds *XDatasetTS) GetDataset(key string) (XDatasetDef, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetDataset(key)
+	return ds.content().GetDataset(key)
 }
 
 // GetCollection will read the value of the key variable as a XDatasetCollection cast type
 func (ds *XDatasetTS) GetCollection(key string) (XDatasetCollectionDef, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetCollection(key)
+	return ds.content().GetCollection(key)
 }
 
 // GetString will read the value of the key variable as a string cast type
 func (ds *XDatasetTS) GetString(key string) (string, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetString(key)
+	return ds.content().GetString(key)
 }
 
 // GetBool will read the value of the key variable as a boolean cast type
@@ -75,7 +86,7 @@ func (ds *XDatasetTS) GetString(key string) (string, bool) {
 func (ds *XDatasetTS) GetBool(key string) (bool, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetBool(key)
+	return ds.content().GetBool(key)
 }
 
 // GetInt will read the value of the key variable as an integer cast type
@@ -84,63 +95,63 @@ func (ds *XDatasetTS) GetBool(key string) (bool, bool) {
 func (ds *XDatasetTS) GetInt(key string) (int, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetInt(key)
+	return ds.content().GetInt(key)
 }
 
 // GetFloat will read the value of the key variable as a float64 cast type
 func (ds *XDatasetTS) GetFloat(key string) (float64, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetFloat(key)
+	return ds.content().GetFloat(key)
 }
 
 // GetTime will read the value of the key variable as a time cast type
 func (ds *XDatasetTS) GetTime(key string) (time.Time, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetTime(key)
+	return ds.content().GetTime(key)
 }
 
 // GetStringCollection will read the value of the key variable as a collection of strings cast type
 func (ds *XDatasetTS) GetStringCollection(key string) ([]string, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetStringCollection(key)
+	return ds.content().GetStringCollection(key)
 }
 
 // GetBoolCollection will read the value of the key variable as a collection of bool cast type
 func (ds *XDatasetTS) GetBoolCollection(key string) ([]bool, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetBoolCollection(key)
+	return ds.content().GetBoolCollection(key)
 }
 
 // GetIntCollection will read the value of the key variable as a collection of int cast type
 func (ds *XDatasetTS) GetIntCollection(key string) ([]int, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetIntCollection(key)
+	return ds.content().GetIntCollection(key)
 }
 
 // GetFloatCollection will read the value of the key variable as a collection of float cast type
 func (ds *XDatasetTS) GetFloatCollection(key string) ([]float64, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetFloatCollection(key)
+	return ds.content().GetFloatCollection(key)
 }
 
 // GetTimeCollection will read the value of the key variable as a collection of time cast type
 func (ds *XDatasetTS) GetTimeCollection(key string) ([]time.Time, bool) {
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	return ds.data.GetTimeCollection(key)
+	return ds.content().GetTimeCollection(key)
 }
 
 // Del will deletes the variable
 func (ds *XDatasetTS) Del(key string) {
 	ds.mutex.Lock()
 	defer ds.mutex.Unlock()
-	ds.data.Del(key)
+	ds.content().Del(key)
 }
 
 // Clone will creates a totally new data memory cloned from this object
@@ -148,6 +159,6 @@ func (ds *XDatasetTS) Clone() XDatasetDef {
 	cloned := &XDatasetTS{}
 	ds.mutex.RLock()
 	defer ds.mutex.RUnlock()
-	cloned.data = ds.data.Clone()
+	cloned.data = ds.content().Clone()
 	return cloned
 }
-- 
2.43.0


From 14d1228e8c31011e72b92742e05acf1c8996b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:54 +0000
Subject: [PATCH 16/32] fix: flushing a cache also forgets the order of use of
 its entries

---
 v2/xcache.go | 1 +
 xcache.go    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/v2/xcache.go b/v2/xcache.go
index 4c9dfe5..9ad8f06 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -270,4 +270,5 @@ func (c *XCache) Flush() {
 	defer c.mutex.Unlock()
 	// how to really deletes the data ? ( to free memory)
 	c.items = make(map[string]*XCacheEntry)
+	c.pile = nil
 }
diff --git a/xcache.go b/xcache.go
index 0204986..3298fed 100644
--- a/xcache.go
+++ b/xcache.go
@@ -215,5 +215,6 @@ func (c *XCache) Flush() {
 	c.mutex.Lock()
 	// how to really deletes the data ? ( to free memory)
 	c.items = make(map[string]*XCacheEntry)
+	c.pile = nil
 	c.mutex.Unlock()
 }
-- 
2.43.0


From 70e2a89a45a1f8d55fabbd64008e20b8e82f3d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:54 +0000
Subject: [PATCH 17/32] fix: cleaning a cache removes the expired entries from
 the order of use and counts them

---
 v2/xcache.go | 17 +++++++++++++----
 xcache.go    | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 9ad8f06..dd87933 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -212,6 +212,15 @@ func (c *XCache) mClean(perc int) int {
 			}
 		}
 	}
+	if i > 0 {
+		pile := c.pile[:0]
+		for _, k := range c.pile {
+			if _, ok := c.items[k]; ok {
+				pile = append(pile, k)
+			}
+		}
+		c.pile = pile
+	}
 	// 2. clean perc% of olders
 	// How many do we have to clean ?
 	total := len(c.items)
@@ -219,11 +228,11 @@ func (c *XCache) mClean(perc int) int {
 	if LOG {
 		log.Println("Quantity of elements to remove from cache:", num)
 	}
-	for i = 0; i < num; i++ {
-		delete(c.items, c.pile[i])
+	for _, k := range c.pile[:num] {
+		delete(c.items, k)
 	}
-	c.pile = c.pile[i:]
-	return i
+	c.pile = c.pile[num:]
+	return i + num
 }
 
 // Clean will delete expired entries, and free perc% of max items based on time.
diff --git a/xcache.go b/xcache.go
index 3298fed..dbb9d61 100644
--- a/xcache.go
+++ b/xcache.go
@@ -171,6 +171,15 @@ func (c *XCache) Clean(perc int) int {
 			}
 		}
 	}
+	if i > 0 {
+		pile := c.pile[:0]
+		for _, k := range c.pile {
+			if _, ok := c.items[k]; ok {
+				pile = append(pile, k)
+			}
+		}
+		c.pile = pile
+	}
 	// 2. clean perc% of olders
 	// How many do we have to clean ?
 	total := len(c.items)
@@ -178,12 +187,12 @@ func (c *XCache) Clean(perc int) int {
 	if LOG {
 		log.Println("Quantity of elements to remove from cache:", num)
 	}
-	for i = 0; i < num; i++ {
-		delete(c.items, c.pile[i])
+	for _, k := range c.pile[:num] {
+		delete(c.items, k)
 	}
-	c.pile = c.pile[i:]
+	c.pile = c.pile[num:]
 	c.mutex.Unlock()
-	return i
+	return i + num
 }
 
 // Verify will first, Clean(0) keeping all the entries, then will delete expired entries using the Validator function.
-- 
2.43.0


From 4b32f94ea119cbfd48e2559e7d5027e7f33e0a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:54 +0000
Subject: [PATCH 18/32] fix: cleaning and verifying a cache remove the entries
 over their own TTL (v2)

---
 v2/xcache.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index dd87933..614b8f9 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -201,15 +201,13 @@ func (c *XCache) mClean(perc int) int {
 	}
 	i := 0
 	// 1. clean all expired items
-	if c.Expire != 0 {
-		for k, x := range c.items {
-			if x.ctime.Add(c.Expire).Before(time.Now()) {
-				if LOG {
-					log.Println("Cache timeout Expired: " + k)
-				}
-				delete(c.items, k)
-				i++
+	for k, x := range c.items {
+		if (x.ttl != 0 && x.ctime.Add(x.ttl).Before(time.Now())) || (c.Expire != 0 && x.ctime.Add(c.Expire).Before(time.Now())) {
+			if LOG {
+				log.Println("Cache timeout Expired: " + k)
 			}
+			delete(c.items, k)
+			i++
 		}
 	}
 	if i > 0 {
-- 
2.43.0


From e2310480fa20cf8815b07278efe9f1d5e3b50d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:54 +0000
Subject: [PATCH 19/32] fix: a cache with a small maximum does not grow beyond
 it

---
 v2/xcache.go | 5 +++++
 xcache.go    | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/v2/xcache.go b/v2/xcache.go
index 614b8f9..6a44276 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -74,6 +74,11 @@ func (c *XCache) Set(key string, indata interface{}) {
 	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {
 		// We need a cleaning
 		c.mClean(10)
+		// 10% of a few elements is none, the limit is to be kept anyway
+		for len(c.items) > c.Maxitems {
+			delete(c.items, c.pile[0])
+			c.pile = c.pile[1:]
+		}
 	}
 }
 
diff --git a/xcache.go b/xcache.go
index dbb9d61..0c907aa 100644
--- a/xcache.go
+++ b/xcache.go
@@ -72,6 +72,13 @@ func (c *XCache) Set(key string, indata interface{}) {
 	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {
 		// We need a cleaning
 		c.Clean(10)
+		// 10% of a few elements is none, the limit is to be kept anyway
+		c.mutex.Lock()
+		for len(c.items) > c.Maxitems {
+			delete(c.items, c.pile[0])
+			c.pile = c.pile[1:]
+		}
+		c.mutex.Unlock()
 	}
 }
 
-- 
2.43.0


From 35cc55e9536059aa813e66349e5acfa9768bd5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:19 +0000
Subject: [PATCH 20/32] fix: verifying a cache removes the refused entries from
 the order of use (v1)

---
 xcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcache.go b/xcache.go
index 0c907aa..2097bb3 100644
--- a/xcache.go
+++ b/xcache.go
@@ -217,6 +217,7 @@ func (c *XCache) Verify() int {
 				}
 				c.mutex.Lock()
 				delete(c.items, k)
+				c.removeFromPile(k)
 				c.mutex.Unlock()
 				i++
 			}
-- 
2.43.0


From ff96bef0c5985cab25efa718e75a06ac016de95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:07 +0000
Subject: [PATCH 21/32] fix: setting an entry in a cache reads and cleans the
 cache under its lock (v1)

---
 xcache.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/xcache.go b/xcache.go
index 2097bb3..c983504 100644
--- a/xcache.go
+++ b/xcache.go
@@ -68,18 +68,16 @@ func (c *XCache) Set(key string, indata interface{}) {
 		c.removeFromPile(key)
 	}
 	c.pile = append(c.pile, key)
-	c.mutex.Unlock()
 	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {
 		// We need a cleaning
-		c.Clean(10)
+		c.mClean(10)
 		// 10% of a few elements is none, the limit is to be kept anyway
-		c.mutex.Lock()
 		for len(c.items) > c.Maxitems {
 			delete(c.items, c.pile[0])
 			c.pile = c.pile[1:]
 		}
-		c.mutex.Unlock()
 	}
+	c.mutex.Unlock()
 }
 
 // removeFromPile will remove an entry key from the ordered pile.
@@ -161,11 +159,17 @@ func (c *XCache) Count() int {
 // Returns quantity of removed entries.
 // It Will **not** verify the cache against its source (if Validator is set). If you want to scan that, use the Verify function.
 func (c *XCache) Clean(perc int) int {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	return c.mClean(perc)
+}
+
+// mClean is Clean without locks. The caller must do it.
+func (c *XCache) mClean(perc int) int {
 	if LOG {
 		log.Println("Cleaning cache")
 	}
 	i := 0
-	c.mutex.Lock()
 	// 1. clean all expired items
 	if c.Expire != 0 {
 		for k, x := range c.items {
@@ -198,7 +202,6 @@ func (c *XCache) Clean(perc int) int {
 		delete(c.items, k)
 	}
 	c.pile = c.pile[num:]
-	c.mutex.Unlock()
 	return i + num
 }
 
-- 
2.43.0


From 3e793477ed06c99e1481fc6a912060b8178c0ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:07 +0000
Subject: [PATCH 22/32] fix: getting an entry of a cache does not race with
 other calls, nor drop an entry set meanwhile

---
 v2/xcache.go | 65 ++++++++++++++++++++++++++++------------------------
 xcache.go    | 36 ++++++++++++++++++++---------
 2 files changed, 60 insertions(+), 41 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 6a44276..b9204c6 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -111,12 +111,15 @@ func (c *XCache) removeFromPile(key string) {
 	}
 }
 
-// mGet will get the entry of the cache.
-func (c *XCache) mGet(key string) (*XCacheEntry, bool) {
+// mGet will get the entry of the cache and its TTL.
+func (c *XCache) mGet(key string) (*XCacheEntry, time.Duration, bool) {
 	c.mutex.RLock()
 	defer c.mutex.RUnlock()
 	x, ok := c.items[key]
-	return x, ok
+	if !ok {
+		return nil, 0, false
+	}
+	return x, x.ttl, true
 }
 
 // Get will get the value of an entry.
@@ -124,17 +127,13 @@ func (c *XCache) mGet(key string) (*XCacheEntry, bool) {
 // If the entry exists and is invalidated by time or validator function, then returns nil, true.
 // If the entry is good, return <value>, false.
 func (c *XCache) Get(key string) (interface{}, bool) {
-	if x, ok := c.mGet(key); ok {
+	if x, ttl, ok := c.mGet(key); ok {
 		// expired by TTL ?
-		if x.ttl != 0 {
-			if x.ctime.Add(x.ttl).Before(time.Now()) {
-				c.Del(key)
-				/*
-					c.mutex.Lock()
-					delete(c.items, key)
-					c.removeFromPile(key)
-					c.mutex.Unlock()
-				*/
+		if ttl != 0 {
+			if x.ctime.Add(ttl).Before(time.Now()) {
+				if !c.mDel(key, x) {
+					return c.Get(key)
+				}
 				return nil, true
 			}
 		}
@@ -143,13 +142,9 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Validator invalids entry: " + key)
 				}
-				c.Del(key)
-				/*
-					c.mutex.Lock()
-					delete(c.items, key)
-					c.removeFromPile(key)
-					c.mutex.Unlock()
-				*/
+				if !c.mDel(key, x) {
+					return c.Get(key)
+				}
 				return nil, true
 			}
 		}
@@ -159,21 +154,19 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Cache timeout Expired: " + key)
 				}
-				c.Del(key)
-				/*
-					c.mutex.Lock()
-					delete(c.items, key)
-					c.removeFromPile(key)
-					c.mutex.Unlock()
-				*/
+				if !c.mDel(key, x) {
+					return c.Get(key)
+				}
 				return nil, true
 			}
 		}
-		x.rtime = time.Now()
 		c.mutex.Lock()
 		defer c.mutex.Unlock()
-		c.removeFromPile(key)
-		c.pile = append(c.pile, key)
+		if c.items[key] == x {
+			x.rtime = time.Now()
+			c.removeFromPile(key)
+			c.pile = append(c.pile, key)
+		}
 		return x.data, false
 	}
 	return nil, false
@@ -188,6 +181,18 @@ func (c *XCache) Del(key string) {
 	c.removeFromPile(key)
 }
 
+// mDel will delete the entry of the cache only if it still is the given one, and not another one set meanwhile.
+func (c *XCache) mDel(key string, entry *XCacheEntry) bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.items[key] != entry {
+		return false
+	}
+	delete(c.items, key)
+	c.removeFromPile(key)
+	return true
+}
+
 // Count will return the quantity of entries in the cache.
 func (c *XCache) Count() int {
 	c.mutex.RLock()
diff --git a/xcache.go b/xcache.go
index c983504..e717003 100644
--- a/xcache.go
+++ b/xcache.go
@@ -108,10 +108,9 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Validator invalids entry: " + key)
 				}
-				c.mutex.Lock()
-				delete(c.items, key)
-				c.removeFromPile(key)
-				c.mutex.Unlock()
+				if !c.mDel(key, x) {
+					return c.Get(key)
+				}
 				return nil, true
 			}
 		}
@@ -121,16 +120,19 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Cache timeout Expired: " + key)
 				}
-				c.mutex.Lock()
-				delete(c.items, key)
-				c.removeFromPile(key)
-				c.mutex.Unlock()
+				if !c.mDel(key, x) {
+					return c.Get(key)
+				}
 				return nil, true
 			}
 		}
-		x.rtime = time.Now()
-		c.removeFromPile(key)
-		c.pile = append(c.pile, key)
+		c.mutex.Lock()
+		defer c.mutex.Unlock()
+		if c.items[key] == x {
+			x.rtime = time.Now()
+			c.removeFromPile(key)
+			c.pile = append(c.pile, key)
+		}
 		return x.data, false
 	}
 	c.mutex.Unlock()
@@ -146,6 +148,18 @@ func (c *XCache) Del(key string) {
 	c.mutex.Unlock()
 }
 
+// mDel will delete the entry of the cache only if it still is the given one, and not another one set meanwhile.
+func (c *XCache) mDel(key string, entry *XCacheEntry) bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.items[key] != entry {
+		return false
+	}
+	delete(c.items, key)
+	c.removeFromPile(key)
+	return true
+}
+
 // Count will return the quantity of entries in the cache.
 func (c *XCache) Count() int {
 	c.mutex.Lock()
-- 
2.43.0


From 30cc66d6b93e1031ddd1d5a0f63025f4fec63605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:07 +0000
Subject: [PATCH 23/32] fix: verifying a cache does not race with other calls,
 nor drop an entry set meanwhile

---
 v2/xcache.go | 17 +++++++++--------
 xcache.go    | 14 +++++++++-----
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index b9204c6..6276734 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -261,19 +261,20 @@ func (c *XCache) Verify() int {
 	i := c.Clean(0)
 	// 2. If there is a validator, verifies anything
 	if c.Validator != nil {
+		c.mutex.RLock()
+		items := make(map[string]*XCacheEntry, len(c.items))
 		for k, x := range c.items {
+			items[k] = x
+		}
+		c.mutex.RUnlock()
+		for k, x := range items {
 			if b := c.Validator(k, x.ctime); !b {
 				if LOG {
 					log.Println("Validator invalids entry: " + k)
 				}
-				c.Del(k)
-				/*
-					c.mutex.Lock()
-					delete(c.items, k)
-					c.removeFromPile(k)
-					c.mutex.Unlock()
-				*/
-				i++
+				if c.mDel(k, x) {
+					i++
+				}
 			}
 		}
 	}
diff --git a/xcache.go b/xcache.go
index e717003..ebcb8fd 100644
--- a/xcache.go
+++ b/xcache.go
@@ -227,16 +227,20 @@ func (c *XCache) Verify() int {
 	i := c.Clean(0)
 	// 2. If there is a validator, verifies anything
 	if c.Validator != nil {
+		c.mutex.Lock()
+		items := make(map[string]*XCacheEntry, len(c.items))
 		for k, x := range c.items {
+			items[k] = x
+		}
+		c.mutex.Unlock()
+		for k, x := range items {
 			if b := c.Validator(k, x.ctime); !b {
 				if LOG {
 					log.Println("Validator invalids entry: " + k)
 				}
-				c.mutex.Lock()
-				delete(c.items, k)
-				c.removeFromPile(k)
-				c.mutex.Unlock()
-				i++
+				if c.mDel(k, x) {
+					i++
+				}
 			}
 		}
 	}
-- 
2.43.0


From f6dd0940740ced0937fc8d1259a9c0ac92fbcdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:16 +0000
Subject: [PATCH 24/32] fix: a language text can have lines of any length

---
 v2/xlanguage.go | 1 +
 xlanguage.go    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index 7506d73..6a0e68a 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -147,6 +147,7 @@ func (l *XLanguage) LoadFile(file string) error {
 //	Returns nil if there is an error
 func (l *XLanguage) LoadString(data string) error {
 	scanner := bufio.NewScanner(strings.NewReader(data))
+	scanner.Buffer(nil, len(data)+1) // the lines can have any length
 	for scanner.Scan() {
 		line := scanner.Text()
 		posequal := strings.Index(line, "=")
diff --git a/xlanguage.go b/xlanguage.go
index 2d23505..9885981 100644
--- a/xlanguage.go
+++ b/xlanguage.go
@@ -147,6 +147,7 @@ func (l *XLanguage) LoadFile(file string) error {
 //	Returns nil if there is an error
 func (l *XLanguage) LoadString(data string) error {
 	scanner := bufio.NewScanner(strings.NewReader(data))
+	scanner.Buffer(nil, len(data)+1) // the lines can have any length
 	for scanner.Scan() {
 		line := scanner.Text()
 		posequal := strings.Index(line, "=")
-- 
2.43.0


From 6f5a6bf7458c3509040be7fab53c5490e7847af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:16 +0000
Subject: [PATCH 25/32] fix: the name and the language of a language table are
 read and set under its lock (v2)

---
 v2/xlanguage.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index 6a0e68a..65d8b93 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -112,10 +112,10 @@ func (l *XLanguage) LoadXMLString(data string) error {
 	}
 
 	// Scan to our XLanguage Object
-	l.Name = temp.Name
-	l.Language, _ = language.Parse(temp.Language)
 	l.mutex.Lock()
 	defer l.mutex.Unlock()
+	l.Name = temp.Name
+	l.Language, _ = language.Parse(temp.Language)
 	for _, e := range temp.Entries {
 		l.entries[e.ID] = e.Entry
 		l.status[e.ID] = e.Status
@@ -180,21 +180,29 @@ func (l *XLanguage) LoadString(data string) error {
 
 // SetName will set the name of the language table
 func (l *XLanguage) SetName(name string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	l.Name = name
 }
 
 // SetLanguage will set the language ISO code (2 letters) of the language table
 func (l *XLanguage) SetLanguage(lang language.Tag) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	l.Language = lang
 }
 
 // GetName will return the name of the language table
 func (l *XLanguage) GetName() string {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	return l.Name
 }
 
 // GetLanguage will return the language of the language table
 func (l *XLanguage) GetLanguage() language.Tag {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	return l.Language
 }
 
-- 
2.43.0


From 9c4c4113b37e4060abb98b9dd9287f5b35defd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:16 +0000
Subject: [PATCH 26/32] fix: GetXML escapes the name, ids, statuses and texts
 so that the document can be loaded again (v2)

---
 v2/xlanguage.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index 65d8b93..cca7360 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -261,16 +261,26 @@ func (l *XLanguage) GetEntries() map[string]string {
 	return clone
 }
 
+// xmlCData keeps in a CDATA section what would end it or would be changed when it is read
+var xmlCData = strings.NewReplacer("]]>", "]]]]><![CDATA[>", "\r", "]]>&#xD;<![CDATA[")
+
+// xmlAttr escapes the value of an XML attribute
+func xmlAttr(value string) string {
+	var b strings.Builder
+	xml.EscapeText(&b, []byte(value))
+	return b.String()
+}
+
 // GetXML will generate the XML to save the file
 func (l *XLanguage) GetXML() string {
 	sdata := []string{}
 	l.mutex.RLock()
 	defer l.mutex.RUnlock()
 	for key, val := range l.entries {
-		sdata = append(sdata, "  <entry id=\""+key+"\" status=\""+l.status[key]+"\"><![CDATA["+val+"]]></entry>")
+		sdata = append(sdata, "  <entry id=\""+xmlAttr(key)+"\" status=\""+xmlAttr(l.status[key])+"\"><![CDATA["+xmlCData.Replace(val)+"]]></entry>")
 	}
 	sort.Strings(sdata) // Lets be sure the print is always the same presentation
-	return "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<language id=\"" + l.Name + "\" lang=\"" + fmt.Sprint(l.Language) + "\">\n" +
+	return "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<language id=\"" + xmlAttr(l.Name) + "\" lang=\"" + fmt.Sprint(l.Language) + "\">\n" +
 		strings.Join(sdata, "\n") + "\n</language>"
 }
 
-- 
2.43.0


From 6fbb8a84020d670921adbaa3259663a7a328cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:11 +0000
Subject: [PATCH 27/32] fix: a language document with anything around its root
 element is refused

---
 xlanguage.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/xlanguage.go b/xlanguage.go
index 9885981..cb6ee60 100644
--- a/xlanguage.go
+++ b/xlanguage.go
@@ -3,7 +3,9 @@ package xcore
 import (
 	"bufio"
 	"encoding/xml"
+	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"sort"
@@ -109,7 +111,7 @@ func (l *XLanguage) LoadXMLString(data string) error {
 
 	// Unmarshal
 	temp := &xlang{}
-	err := xml.Unmarshal([]byte(data), temp)
+	err := unmarshalDocument(data, temp)
 	if err != nil {
 		return err
 	}
@@ -123,6 +125,35 @@ func (l *XLanguage) LoadXMLString(data string) error {
 	return nil
 }
 
+// unmarshalDocument decodes a whole XML document: nothing but comments, white space and instructions may surround its root element
+func unmarshalDocument(data string, v interface{}) error {
+	decoder := xml.NewDecoder(strings.NewReader(strings.TrimPrefix(data, "\ufeff")))
+	found := false
+	for {
+		token, err := decoder.Token()
+		if err == io.EOF && found {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		switch elem := token.(type) {
+		case xml.StartElement:
+			if found {
+				return errors.New("Error: XML document with more than one root element")
+			}
+			found = true
+			if err = decoder.DecodeElement(v, &elem); err != nil {
+				return err
+			}
+		case xml.CharData:
+			if strings.Trim(string(elem), " \t\r\n") != "" {
+				return errors.New("Error: XML document with text outside of its root element")
+			}
+		}
+	}
+}
+
 // LoadFile will Load a language from a file and replace the content of the XLanguage structure with the new data
 //
 //	Returns nil if there is an error
-- 
2.43.0


From bf91d2eafef69d3b8d1e1ae5f5f6c69ff3645b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:11 +0000
Subject: [PATCH 28/32] fix: a language document with anything around its root
 element is refused (v2)

---
 v2/xlanguage.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index cca7360..182b6db 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -3,7 +3,9 @@ package xcore
 import (
 	"bufio"
 	"encoding/xml"
+	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"sort"
@@ -105,7 +107,7 @@ func (l *XLanguage) LoadXMLString(data string) error {
 
 	// Unmarshal
 	temp := &xlang{}
-	err := xml.Unmarshal([]byte(data), temp)
+	err := unmarshalDocument(data, temp)
 
 	if err != nil {
 		return err
@@ -123,6 +125,35 @@ func (l *XLanguage) LoadXMLString(data string) error {
 	return nil
 }
 
+// unmarshalDocument decodes a whole XML document: nothing but comments, white space and instructions may surround its root element
+func unmarshalDocument(data string, v interface{}) error {
+	decoder := xml.NewDecoder(strings.NewReader(strings.TrimPrefix(data, "\ufeff")))
+	found := false
+	for {
+		token, err := decoder.Token()
+		if err == io.EOF && found {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		switch elem := token.(type) {
+		case xml.StartElement:
+			if found {
+				return errors.New("Error: XML document with more than one root element")
+			}
+			found = true
+			if err = decoder.DecodeElement(v, &elem); err != nil {
+				return err
+			}
+		case xml.CharData:
+			if strings.Trim(string(elem), " \t\r\n") != "" {
+				return errors.New("Error: XML document with text outside of its root element")
+			}
+		}
+	}
+}
+
 // LoadFile will Load a language from a file and replace the content of the XLanguage structure with the new data
 //
 //	Returns nil if there is an error
-- 
2.43.0


From 9317f159b9237060588cb17d8fe36553457fa22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:50 +0000
Subject: [PATCH 29/32] fix: a loop no longer crashes when its thread safe
 collection is shortened meanwhile

---
 v2/xtemplate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 7312e9b..a29c3e5 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -414,7 +414,10 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 							if tmp == nil {
 								tmp = subt
 							}
-							dcl, _ := cl.Get(i)
+							dcl, ok := cl.Get(i)
+							if !ok {
+								break // a thread safe collection may be shortened meanwhile
+							}
 							datacol.Push(dcl)
 							// the counter has its own level, the records of the user are not modified
 							datacol.Push(&XDataset{".counter": i + 1})
-- 
2.43.0


From d28cf5531e33737c55f749099d25903d9a275822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:13 +0000
Subject: [PATCH 30/32] fix: a template that holds nothing yet can be printed

---
 xtemplate.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xtemplate.go b/xtemplate.go
index 87675ff..b429924 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -480,8 +480,10 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 // String will transform the XDataset into a readable string for humans
 func (t *XTemplate) String() string {
 	sdata := []string{}
-	for _, val := range *t.Root {
-		sdata = append(sdata, fmt.Sprintf("%v", val))
+	if t.Root != nil {
+		for _, val := range *t.Root {
+			sdata = append(sdata, fmt.Sprintf("%v", val))
+		}
 	}
 	sort.Strings(sdata) // Lets be sure the print is always the same presentation
 	return "xcore.XLanguage{" + strings.Join(sdata, " ") + "}"
-- 
2.43.0


From 6e91b25b2be61097c97ea63c6693e3bb23514819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:58:26 +0000
Subject: [PATCH 31/32] fix: v1: close a file that was opened but cannot be
 read

---
 xlanguage.go | 2 ++
 xtemplate.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/xlanguage.go b/xlanguage.go
index cb6ee60..084b442 100644
--- a/xlanguage.go
+++ b/xlanguage.go
@@ -84,6 +84,7 @@ func (l *XLanguage) LoadXMLFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(xmlFile)
 	if err != nil {
+		xmlFile.Close()
 		return err
 	}
 	err = xmlFile.Close()
@@ -164,6 +165,7 @@ func (l *XLanguage) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(flatFile)
 	if err != nil {
+		flatFile.Close()
 		return err
 	}
 	err = flatFile.Close()
diff --git a/xtemplate.go b/xtemplate.go
index b429924..66b3a39 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -108,6 +108,7 @@ func (t *XTemplate) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(tFile)
 	if err != nil {
+		tFile.Close()
 		return err
 	}
 	err = tFile.Close()
-- 
2.43.0


From a2f63095964b44eb333d199a80ecffaee02c48b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:58:26 +0000
Subject: [PATCH 32/32] fix: v2: close a file that was opened but cannot be
 read

---
 v2/xlanguage.go | 1 +
 v2/xtemplate.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index 182b6db..777c87c 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -164,6 +164,7 @@ func (l *XLanguage) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(flatFile)
 	if err != nil {
+		flatFile.Close()
 		return err
 	}
 	err = flatFile.Close()
diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index a29c3e5..01e8be4 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -116,6 +116,7 @@ func (t *XTemplate) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(tFile)
 	if err != nil {
+		tFile.Close()
 		return err
 	}
 	err = tFile.Close()
-- 
2.43.0

