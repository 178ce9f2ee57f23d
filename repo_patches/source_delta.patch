From 1d7a172ce24850df47cff12b0e3ada0261a59ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:58 +0000
Subject: [PATCH 01/47] fix: near-search on a collection without vectors
 returns no results instead of an error

---
 pkg/hnsw/insert.go               | 14 ++++++++++++++
 pkg/hnsw/search_with_max_dist.go |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index d817847..a6f2846 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -18,6 +18,7 @@ import (
 	"math"
 	"time"
 
+	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
 	"github.com/pkg/errors"
 	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
 	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
@@ -178,6 +179,19 @@ func (h *hnsw) GetDocCount() (uint64, error) {
 	return c.Count, nil
 }
 
+// hasNoVectors tells whether no vector has been added to the index yet, neither
+// flushed nor still in memory.
+func (h *hnsw) hasNoVectors() bool {
+	if h.indexCache.Len() > 0 {
+		return false
+	}
+	count, err := h.GetDocCount()
+	if err != nil {
+		return errors.Is(err, collection.ErrEntryNotFound)
+	}
+	return count == 0
+}
+
 func (h *hnsw) LoadEntrypoint() error {
 	h.RLock()
 	defer h.RUnlock()
diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 6cf2ab7..05fab80 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -27,6 +27,9 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 		// similarity are only identical if the vector is normalized
 		searchVec = distancer.Normalize(searchVec)
 	}
+	if h.hasNoVectors() {
+		return nil, nil, nil
+	}
 	entryPointID := h.entryPointID
 	entryPointDistance, ok, err := h.distBetweenNodeAndVec(entryPointID, searchVec)
 	if err != nil {
-- 
2.43.0


From 66b8f120f4ecd8fcffa13abb5f04f37f86094e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:58 +0000
Subject: [PATCH 02/47] fix: KnnSearchByVectorMaxDist returns one distance per
 returned id

---
 pkg/hnsw/search_with_max_dist.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 05fab80..1c23e5c 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -86,5 +86,6 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	}
 
 	h.pools.pqResults.Put(res)
+	dists = dists[:i]
 	return out[:i], dists, nil
 }
-- 
2.43.0


From 436b81f4d9a52950fee4d6db1a7fd6b6c9cd5839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:58 +0000
Subject: [PATCH 03/47] fix: near-search no longer drops documents whose cosine
 distance rounds below zero

---
 pkg/hnsw/search_with_max_dist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 1c23e5c..fcd12e9 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -74,6 +74,11 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	dists := make([]float32, len(all))
 	i = 0
 	for _, elem := range all {
+		if elem.Dist < 0 && h.distancerProvider.Type() == "cosine-dot" {
+			// rounding can push the distance of (nearly) identical directions
+			// slightly below zero: these are the best matches, not invalid ones
+			elem.Dist = 0
+		}
 		if elem.Dist < 0 {
 			continue
 		}
-- 
2.43.0


From 91e1eefb7bd958533e0ed2a8ae1a887cfc148e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:16 +0000
Subject: [PATCH 04/47] fix: text near-search without a limit returns every
 document within the distance

---
 pkg/hnsw/search_with_max_dist.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index fcd12e9..d0e23e1 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -19,6 +19,9 @@ import (
 	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
 )
 
+// unlimitedSearchEF is the search width used when the caller sets no limit
+const unlimitedSearchEF = 800
+
 func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	ef int, allowList helpers.AllowList,
 ) ([]uint64, []float32, error) {
@@ -27,6 +30,10 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 		// similarity are only identical if the vector is normalized
 		searchVec = distancer.Normalize(searchVec)
 	}
+	if ef < 1 {
+		// no limit requested: do not cut the search off after the first hit
+		ef = unlimitedSearchEF
+	}
 	if h.hasNoVectors() {
 		return nil, nil, nil
 	}
-- 
2.43.0


From 38cbf63b9d7d0777c06efcecafc492320913f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:48 +0000
Subject: [PATCH 05/47] fix: commit the pod feeds when a collection is created
 or deleted

---
 pkg/document/document.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 0733c82..e9fb2ee 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -204,7 +204,8 @@ func (c *Client) CreateCollection(col *Collection) error {
 	c.hnswLock.Lock()
 	c.indices[namespacedCollection] = index
 	c.hnswLock.Unlock()
-	return nil
+	// an acknowledged collection has to survive a restart
+	return c.api.CommitPodFeeds(c.pod, c.sessionId)
 }
 
 func (c *Client) DeleteCollection(collection string) error {
@@ -242,7 +243,8 @@ func (c *Client) DeleteCollection(collection string) error {
 	c.hnswLock.Lock()
 	delete(c.indices, namespacedCollection)
 	c.hnswLock.Unlock()
-	return nil
+	// an acknowledged deletion has to survive a restart
+	return c.api.CommitPodFeeds(c.pod, c.sessionId)
 }
 
 func (c *Client) GetCollections() ([]*Collection, error) {
-- 
2.43.0


From 34612a0611280c749942c6cb95e8f3fa0cb497fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:59 +0000
Subject: [PATCH 06/47] fix: near-search never returns another document in
 place of a replaced one

---
 pkg/document/document.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index e9fb2ee..291be4f 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -532,6 +532,9 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 			defer wg.Done()
 			expr := fmt.Sprintf("%s=%d", hnswIndexName, id)
 			docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
+			if c.isStale(namespacedCollection, expr, id, docs, err) {
+				return
+			}
 			if err != nil {
 				fmt.Println("doc find error", err, id, expr, ids)
 				errCh <- err
@@ -553,6 +556,7 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 		return nil, nil, err
 	}
 
+	documents, dists = dropStale(documents, dists)
 	return documents, dists, nil
 }
 
@@ -629,6 +633,9 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 			defer wg.Done()
 			expr := fmt.Sprintf("%s=%d", hnswIndexName, id)
 			docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
+			if c.isStale(namespacedCollection, expr, id, docs, err) {
+				return
+			}
 			if err != nil {
 				errCh <- err
 				return
@@ -649,9 +656,42 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 		return nil, nil, err
 	}
 
+	documents, dists = dropStale(documents, dists)
 	return documents, dists, nil
 }
 
+// isStale tells whether the result of looking up an entry of the vector index
+// shows that the collection has no document for it any more, which happens when
+// a document is replaced or was never stored completely.
+func (c *Client) isStale(namespacedCollection, expr string, id uint64, docs [][]byte, err error) bool {
+	if err != nil {
+		return errors.Is(err, collection.ErrEntryNotFound)
+	}
+	if len(docs) == 0 {
+		// the lookup hides read failures, only believe it if nothing is indexed
+		count, err := c.api.DocCount(c.sessionId, c.pod, namespacedCollection, expr)
+		return errors.Is(err, collection.ErrEntryNotFound) || (err == nil && count.Count == 0)
+	}
+	// the lookup answers with the next higher entry when there is no exact match
+	found := struct {
+		ID float64 `json:"hnswId"`
+	}{}
+	return json.Unmarshal(docs[0], &found) == nil && found.ID != float64(id)
+}
+
+// dropStale removes the results for which no document was found.
+func dropStale(documents [][]byte, dists []float32) ([][]byte, []float32) {
+	n := 0
+	for i := range documents {
+		if documents[i] == nil {
+			continue
+		}
+		documents[n], dists[n] = documents[i], dists[i]
+		n++
+	}
+	return documents[:n], dists[:n]
+}
+
 func (c *Client) GetDocument(collection, property, value string) ([]byte, error) {
 	namespacedCollection := namespace + collection
 	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
-- 
2.43.0


From aea422069b13a543048fe736b6f8c324a677d92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:03 +0000
Subject: [PATCH 07/47] fix: GetDocument only returns documents whose property
 has the requested value

---
 pkg/document/document.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 291be4f..46c04d5 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -716,9 +717,42 @@ func (c *Client) GetDocument(collection, property, value string) ([]byte, error)
 	if len(docs) == 0 {
 		return nil, fmt.Errorf("document not found")
 	}
+	if expr != "" && !hasProperty(docs[0], property, value) {
+		return nil, fmt.Errorf("document not found")
+	}
 	return docs[0], nil
 }
 
+// hasProperty tells whether the property of the document has the given value.
+// The underlying lookup also answers with prefix matches and with the next
+// higher entry.
+func hasProperty(doc []byte, property, value string) bool {
+	props := map[string]interface{}{}
+	if err := json.Unmarshal(doc, &props); err != nil {
+		return false
+	}
+	switch v := props[property].(type) {
+	case string:
+		return v == value
+	case float64:
+		number, err := strconv.ParseFloat(value, 64)
+		return err == nil && v == number
+	case []interface{}:
+		for _, item := range v {
+			if item == value {
+				return true
+			}
+		}
+	case map[string]interface{}:
+		for key, item := range v {
+			if s, ok := item.(string); ok && key+s == strings.ReplaceAll(value, ":", "") {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func convertToFloat32Slice(i interface{}) ([]float32, error) {
 	// Check if the underlying value is a slice
 	if slice, ok := i.([]interface{}); ok {
-- 
2.43.0


From 9768b5ff6d497da7b007ab10693d2b4f0bb06c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:36 +0000
Subject: [PATCH 08/47] fix: a failed vectorizer call is an error, not a nil
 vector

---
 pkg/vectorizer/rest/vectorizer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/vectorizer/rest/vectorizer.go b/pkg/vectorizer/rest/vectorizer.go
index 6613e36..515efa9 100644
--- a/pkg/vectorizer/rest/vectorizer.go
+++ b/pkg/vectorizer/rest/vectorizer.go
@@ -57,7 +57,7 @@ func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
 	defer resp.Body.Close()
 
 	if resp.StatusCode != http.StatusOK {
-		return nil, err
+		return nil, ErrServiceUnavailable
 	}
 
 	var result map[string][]float32
@@ -65,6 +65,10 @@ func (v *Vectorizer) Corpi(text []string) (*vctrzr.Vector, error) {
 		return nil, err
 	}
 
+	if len(result["vector"]) == 0 {
+		return nil, errors.New("vectorizer returned no vector")
+	}
+
 	vector := vctrzr.NewVector(result["vector"])
 	return &vector, nil
 }
-- 
2.43.0


From 9f5c1c35adae8998301972f4680596c80f782d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:40 +0000
Subject: [PATCH 09/47] fix: AddDocuments reports a document it could not add
 instead of dropping it

---
 pkg/document/document.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 46c04d5..73efc3a 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -379,7 +379,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 				err = index.Add(indexId, vector)
 				if err != nil {
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
+					return err
 				}
 				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector)
 
@@ -389,7 +389,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 				err = index.Add(indexId, slice)
 				if err != nil {
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
+					return err
 				}
 				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), slice)
 
@@ -415,14 +415,14 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 				vector, err := c.lookup.Corpi([]string{vectorData})
 				if err != nil {
 					c.logger.Errorf("corpi failed :%s\n", err.Error())
-					continue
+					return err
 				}
 
 				doc.Properties[hnswIndexName] = indexId
 				err = index.Add(indexId, vector.ToArray())
 				if err != nil {
 					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					continue
+					return err
 				}
 				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector.ToArray())
 
@@ -435,7 +435,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		data, err := json.Marshal(doc.Properties)
 		if err != nil {
 			c.logger.Errorf("marshal document failed :%s\n", err.Error())
-			continue
+			return err
 		}
 
 		err = c.api.DocPut(c.sessionId, c.pod, namespacedCollection, data)
-- 
2.43.0


From 0e6e15d2cb55b800ea76b75a540ff1b3299625c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:44 +0000
Subject: [PATCH 10/47] fix: AddDocuments does not restart ids at zero when the
 document count cannot be read

---
 pkg/document/document.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 73efc3a..187fb75 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -341,6 +341,11 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	c.hnswLock.Unlock()
 	count, err := index.GetDocCount()
 	if err != nil {
+		if !isNotFound(err) {
+			// taking this for an empty collection would reuse the ids of the
+			// documents that are already there
+			return err
+		}
 		count = 0
 	}
 
@@ -456,6 +461,10 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	return nil
 }
 
+func isNotFound(err error) bool {
+	return errors.Is(err, collection.ErrEntryNotFound)
+}
+
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
 	kvStore := c.podInfo.GetKVStore()
-- 
2.43.0


From f8d4beaa648aada2f84c68f087ea4613a77b2307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:47 +0000
Subject: [PATCH 11/47] fix: never hand out the same index id twice, to
 concurrent adds or after a failed add

---
 pkg/document/document.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 187fb75..426f2a3 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -47,6 +47,13 @@ type Client struct {
 	podInfo       *pod.Info
 	lookup        vectorizer.Vectorizer
 	documentCache *lru.Cache
+
+	// addLock serializes changes of collections, ids are handed out by reading
+	// the stored count
+	addLock sync.Mutex
+	// nextIDs remembers per collection the first id that was not handed out by
+	// this client, also by adds that failed halfway
+	nextIDs map[string]uint64
 }
 
 type Collection struct {
@@ -71,6 +78,7 @@ func New(config Config, api *dfs.API) (*Client, error) {
 		api:     api,
 		logger:  logger,
 		indices: map[string]h.VectorIndex{},
+		nextIDs: map[string]uint64{},
 	}
 	// TODO support multiple languages
 	//if config.GlovePodRef != "" {
@@ -147,6 +155,8 @@ func (c *Client) OpenPod(pod string) error {
 func (c *Client) CreateCollection(col *Collection) error {
 	c.lock.Lock()
 	defer c.lock.Unlock()
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
 
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
@@ -212,6 +222,9 @@ func (c *Client) CreateCollection(col *Collection) error {
 func (c *Client) DeleteCollection(collection string) error {
 	c.lock.Lock()
 	defer c.lock.Unlock()
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
+	delete(c.nextIDs, namespace+collection)
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
 	}
@@ -288,6 +301,8 @@ func (c *Client) GetCollections() ([]*Collection, error) {
 }
 
 func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
 	namespacedCollection := namespace + collection
 
 	// check if kv and doc table is open or not
@@ -350,6 +365,17 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	}
 
 	indexId := count
+	if next := c.nextIDs[namespacedCollection]; next > indexId {
+		indexId = next
+	}
+	completed := false
+	defer func() {
+		if !completed {
+			// the document that failed may have used its id already
+			indexId++
+		}
+		c.nextIDs[namespacedCollection] = indexId
+	}()
 	for _, doc := range documents {
 		doc.Properties["id"] = doc.ID
 
@@ -458,6 +484,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if err != nil {
 		return err
 	}
+	completed = true
 	return nil
 }
 
-- 
2.43.0


From ec8b91e7fa6969e7b493a77052fa838265be03a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:13 +0000
Subject: [PATCH 12/47] fix: open a collection exactly once, with its vector
 index, whichever request comes first

---
 pkg/document/document.go | 144 ++++++++++++---------------------------
 1 file changed, 43 insertions(+), 101 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 426f2a3..1016e25 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -48,6 +48,8 @@ type Client struct {
 	lookup        vectorizer.Vectorizer
 	documentCache *lru.Cache
 
+	// openLock serializes the opening of collections
+	openLock sync.Mutex
 	// addLock serializes changes of collections, ids are handed out by reading
 	// the stored count
 	addLock sync.Mutex
@@ -157,6 +159,8 @@ func (c *Client) CreateCollection(col *Collection) error {
 	defer c.lock.Unlock()
 	c.addLock.Lock()
 	defer c.addLock.Unlock()
+	c.openLock.Lock()
+	defer c.openLock.Unlock()
 
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
@@ -224,6 +228,8 @@ func (c *Client) DeleteCollection(collection string) error {
 	defer c.lock.Unlock()
 	c.addLock.Lock()
 	defer c.addLock.Unlock()
+	c.openLock.Lock()
+	defer c.openLock.Unlock()
 	delete(c.nextIDs, namespace+collection)
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
@@ -300,10 +306,15 @@ func (c *Client) GetCollections() ([]*Collection, error) {
 	return collections, nil
 }
 
-func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
-	c.addLock.Lock()
-	defer c.addLock.Unlock()
-	namespacedCollection := namespace + collection
+// openCollection opens the stores and the vector index of a collection if they
+// are not open yet. Only one index object may exist per collection, because it
+// holds nodes that are not stored yet.
+func (c *Client) openCollection(namespacedCollection string) (h.VectorIndex, error) {
+	c.openLock.Lock()
+	defer c.openLock.Unlock()
+	if c.podInfo == nil {
+		return nil, dfs.ErrPodNotOpen
+	}
 
 	// check if kv and doc table is open or not
 	kvStore := c.podInfo.GetKVStore()
@@ -311,14 +322,17 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if err != nil {
 		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
 	if err != nil {
-		return err
+		return nil, err
 	}
-	if !docIsOpen {
+	c.hnswLock.Lock()
+	_, hasIndex := c.indices[namespacedCollection]
+	c.hnswLock.Unlock()
+	if !docIsOpen || !hasIndex {
 		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
 			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
 				return v.([]float32), nil
@@ -339,21 +353,33 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 			EFConstruction: 60,
 		}, kvStore)
 		if err != nil {
-			return err
+			return nil, err
 		}
 
 		c.hnswLock.Lock()
 		c.indices[namespacedCollection] = index
 		c.hnswLock.Unlock()
 		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return err
+		if err != nil && !alreadyOpened(err) {
+			return nil, err
 		}
 	}
 
 	c.hnswLock.Lock()
 	index := c.indices[namespacedCollection]
 	c.hnswLock.Unlock()
+	return index, nil
+}
+
+func (c *Client) AddDocuments(collection string, propertiesToIndex []string, documents ...*Document) error {
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
+	namespacedCollection := namespace + collection
+
+	index, err := c.openCollection(namespacedCollection)
+	if err != nil {
+		return err
+	}
 	count, err := index.GetDocCount()
 	if err != nil {
 		if !isNotFound(err) {
@@ -488,56 +514,20 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	return nil
 }
 
+func alreadyOpened(err error) bool {
+	return errors.Is(err, collection.ErrDocumentDBAlreadyOpened)
+}
+
 func isNotFound(err error) bool {
 	return errors.Is(err, collection.ErrEntryNotFound)
 }
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return nil, nil, err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, nil, err
-		}
-	}
 	if c.lookup == nil {
 		return nil, nil, fmt.Errorf("vectorizer is not initialized")
 	}
@@ -545,9 +535,6 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -599,55 +586,10 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
-
-	kvStore := c.podInfo.GetKVStore()
-	_, err := kvStore.KVCount(namespacedCollection)
-	if err != nil {
-		err = kvStore.OpenKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
+	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
 	}
-	if !docIsOpen {
-		vectorForID := func(ctx context.Context, id uint64) ([]float32, error) {
-			if v, ok := c.documentCache.Get(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, id)); ok {
-				return v.([]float32), nil
-			}
-			return nil, fmt.Errorf("document not found")
-		}
-
-		makeCL := h.MakeNoopCommitLogger
-		index, err := h.New(h.Config{
-			RootPath:              "not-used",
-			ID:                    "not-used",
-			MakeCommitLoggerThunk: makeCL,
-			DistanceProvider:      distancer.NewCosineDistanceProvider(),
-			VectorForIDThunk:      vectorForID,
-			ClassName:             namespacedCollection,
-		}, h.UserConfig{
-			MaxConnections: 30,
-			EFConstruction: 60,
-		}, kvStore)
-		if err != nil {
-			return nil, nil, err
-		}
-
-		c.hnswLock.Lock()
-		c.indices[namespacedCollection] = index
-		c.hnswLock.Unlock()
-		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			return nil, nil, err
-		}
-	}
-
-	c.hnswLock.Lock()
-	index := c.indices[namespacedCollection]
-	c.hnswLock.Unlock()
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -737,7 +679,7 @@ func (c *Client) GetDocument(collection, property, value string) ([]byte, error)
 	}
 	if !docIsOpen {
 		err = c.api.DocOpen(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
+		if err != nil && !alreadyOpened(err) {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 37d9983d5c8f866a5ce05cbd04617172210a8418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:18 +0000
Subject: [PATCH 13/47] fix: adds on a reopened collection start from the
 stored entrypoint, and a failed read of it is an error

---
 pkg/document/document.go |  8 ++++++++
 pkg/hnsw/insert.go       | 14 ++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 1016e25..11df860 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -216,6 +216,10 @@ func (c *Client) CreateCollection(col *Collection) error {
 		return err
 	}
 
+	// the collection may exist already
+	if err = index.LoadEntrypoint(); err != nil {
+		return err
+	}
 	c.hnswLock.Lock()
 	c.indices[namespacedCollection] = index
 	c.hnswLock.Unlock()
@@ -356,6 +360,10 @@ func (c *Client) openCollection(namespacedCollection string) (h.VectorIndex, err
 			return nil, err
 		}
 
+		// adding connects new documents to the stored ones from there
+		if err = index.LoadEntrypoint(); err != nil {
+			return nil, err
+		}
 		c.hnswLock.Lock()
 		c.indices[namespacedCollection] = index
 		c.hnswLock.Unlock()
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index a6f2846..d57e8f4 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -193,19 +193,21 @@ func (h *hnsw) hasNoVectors() bool {
 }
 
 func (h *hnsw) LoadEntrypoint() error {
-	h.RLock()
-	defer h.RUnlock()
+	h.Lock()
+	defer h.Unlock()
 
 	_, v, err := h.nodes.KVGet(h.className, entrypointKey)
 	if err != nil {
-		h.entryPointID = 0
-		return nil
+		if errors.Is(err, collection.ErrEntryNotFound) {
+			// nothing flushed yet, keep what is in memory
+			return nil
+		}
+		return errors.Wrap(err, "load entrypoint")
 	}
 	ep := &entrypoint{}
 	err = json.Unmarshal(v, ep)
 	if err != nil {
-		h.entryPointID = 0
-		return nil
+		return errors.Wrap(err, "unmarshal entrypoint")
 	}
 
 	h.entryPointID = ep.ID
-- 
2.43.0


From 2c365aa330f27862b66fd858267deadc01356400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:00 +0000
Subject: [PATCH 14/47] fix: a negative limit is an error, not a crash

---
 pkg/document/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 11df860..b1ab181 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -532,6 +532,9 @@ func isNotFound(err error) bool {
 
 func (c *Client) GetNearDocuments(collection, text string, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
+	if limit < 0 {
+		return nil, nil, fmt.Errorf("limit must not be negative")
+	}
 	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
@@ -594,6 +597,9 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
 	namespacedCollection := namespace + collection
+	if limit < 0 {
+		return nil, nil, fmt.Errorf("limit must not be negative")
+	}
 	index, err := c.openCollection(namespacedCollection)
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 334ecda9657f182d89f4fc23733749522927fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:20 +0000
Subject: [PATCH 15/47] fix: collections can hold more than 25000 vectors

---
 pkg/hnsw/search.go       | 4 ++--
 pkg/hnsw/vector_cache.go | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 1b39198..a8c6619 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -180,7 +180,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 	}
 
 	h.insertViableEntrypointsAsCandidatesAndResults(entrypoints, candidates,
-		results, level, visited, allowList)
+		results, level, &visited, allowList)
 
 	var worstResultDistance float32
 	var err error
@@ -326,7 +326,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 
 func (h *hnsw) insertViableEntrypointsAsCandidatesAndResults(
 	entrypoints, candidates, results *priorityqueue.Queue, level int,
-	visitedList visited.ListSet, allowList helpers.AllowList,
+	visitedList *visited.ListSet, allowList helpers.AllowList,
 ) {
 	for entrypoints.Len() > 0 {
 		ep := entrypoints.Pop()
diff --git a/pkg/hnsw/vector_cache.go b/pkg/hnsw/vector_cache.go
index 1f6e7b1..ed9227d 100644
--- a/pkg/hnsw/vector_cache.go
+++ b/pkg/hnsw/vector_cache.go
@@ -73,6 +73,7 @@ func (s *shardedLockCache) all() [][]float32 {
 }
 
 func (s *shardedLockCache) get(ctx context.Context, id uint64) ([]float32, error) {
+	s.grow(id)
 	s.shardedLocks[id%shardFactor].RLock()
 	vec := s.cache[id]
 	s.shardedLocks[id%shardFactor].RUnlock()
@@ -124,6 +125,7 @@ func (s *shardedLockCache) multiGet(ctx context.Context, ids []uint64) ([][]floa
 	errs := make([]error, len(ids))
 
 	for i, id := range ids {
+		s.grow(id)
 		s.shardedLocks[id%shardFactor].RLock()
 		vec := s.cache[id]
 		s.shardedLocks[id%shardFactor].RUnlock()
@@ -148,6 +150,7 @@ var prefetchFunc func(in uintptr) = func(in uintptr) {
 
 //nolint:unused
 func (s *shardedLockCache) prefetch(id uint64) {
+	s.grow(id)
 	s.shardedLocks[id%shardFactor].RLock()
 	defer s.shardedLocks[id%shardFactor].RUnlock()
 
@@ -156,6 +159,7 @@ func (s *shardedLockCache) prefetch(id uint64) {
 
 //nolint:unused
 func (s *shardedLockCache) preload(id uint64, vec []float32) {
+	s.grow(id)
 	s.shardedLocks[id%shardFactor].RLock()
 	defer s.shardedLocks[id%shardFactor].RUnlock()
 
@@ -174,6 +178,10 @@ func (s *shardedLockCache) grow(node uint64) {
 	}
 	s.maintenanceLock.Lock()
 	defer s.maintenanceLock.Unlock()
+	if node < uint64(len(s.cache)) {
+		// grown by someone else in the meantime
+		return
+	}
 
 	s.obtainAllLocks()
 	defer s.releaseAllLocks()
-- 
2.43.0


From 644a73c825b48b8148523adb28f9db346b793331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:27 +0000
Subject: [PATCH 16/47] fix: vectors that are not flushed yet are not lost when
 the node cache evicts them

---
 pkg/hnsw/index.go                | 11 +++++++++++
 pkg/hnsw/insert.go               | 13 +++++++++++--
 pkg/hnsw/neighbor_connections.go |  6 +++---
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 814e4f9..0243294 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -157,6 +157,9 @@ type hnsw struct {
 	shardName              string
 
 	indexCache *lru.Cache
+
+	// changed nodes that are not flushed yet, indexCache may evict them
+	unflushed sync.Map
 }
 
 type CommitLogger interface {
@@ -591,6 +594,12 @@ func (h *hnsw) isEmptyUnsecured() bool {
 	return isEmpty
 }
 
+// keepUntilFlush makes a new or changed node available until it is flushed
+func (h *hnsw) keepUntilFlush(node *vertex) {
+	h.unflushed.Store(node.Id, node)
+	h.indexCache.Add(node.Id, node)
+}
+
 func (h *hnsw) nodeByID(id uint64) *vertex {
 	var (
 		value []byte
@@ -606,6 +615,8 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 			fmt.Println("Value is not a vertex.")
 			return nil
 		}
+	} else if node, ok := h.unflushed.Load(id); ok {
+		return node.(*vertex)
 	} else {
 		_, value, err = h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
 		if err != nil {
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index d57e8f4..f3fc392 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -102,7 +102,7 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 		return errors.Wrapf(err, "grow HNSW index to accommodate node %d", node.Id)
 	}
 
-	h.indexCache.Add(node.Id, node)
+	h.keepUntilFlush(node)
 
 	if h.compressed.Load() {
 		compressed := h.pq.Encode(nodeVec)
@@ -118,8 +118,16 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 
 func (h *hnsw) Flush(docCount uint64) error {
 	keys := h.indexCache.Keys()
+	h.unflushed.Range(func(key, _ interface{}) bool {
+		keys = append(keys, key)
+		return true
+	})
 	for _, key := range keys {
 		iNode, ok := h.indexCache.Get(key)
+		if !ok {
+			// evicted before it was flushed
+			iNode, ok = h.unflushed.Load(key)
+		}
 		if !ok {
 			continue
 		}
@@ -136,6 +144,7 @@ func (h *hnsw) Flush(docCount uint64) error {
 			return errors.Wrapf(err, "put node %d", node.Id)
 		}
 		node.Committed = true
+		h.unflushed.Delete(node.Id)
 		h.indexCache.Add(node.Id, node)
 	}
 	ep := &entrypoint{
@@ -284,7 +293,7 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 		h.cache.preload(node.Id, nodeVec)
 	}
 
-	h.indexCache.Add(node.Id, node)
+	h.keepUntilFlush(node)
 
 	h.insertMetrics.prepareAndInsertNode(before)
 	before = time.Now()
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index b83bd2f..455b0b7 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -65,7 +65,7 @@ func (n *neighborFinderConnector) Do() error {
 		}
 	}
 
-	n.graph.indexCache.Add(n.node.Id, n.node)
+	n.graph.keepUntilFlush(n.node)
 
 	return nil
 }
@@ -157,7 +157,7 @@ func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 		// we can simply append
 		// updatedConnections = append(currentConnections, n.node.ID)
 		neighbor.appendConnectionAtLevelNoLock(level, n.node.Id, maximumConnections)
-		n.graph.indexCache.Add(neighbor.Id, neighbor)
+		n.graph.keepUntilFlush(neighbor)
 
 		if err := n.graph.commitLog.AddLinkAtLevel(neighbor.Id, level, n.node.Id); err != nil {
 			return err
@@ -206,7 +206,7 @@ func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 		for candidates.Len() > 0 {
 			id := candidates.Pop().ID
 			neighbor.appendConnectionAtLevelNoLock(level, id, maximumConnections)
-			n.graph.indexCache.Add(neighbor.Id, neighbor)
+			n.graph.keepUntilFlush(neighbor)
 
 			if err := n.graph.commitLog.AddLinkAtLevel(neighbor.Id, level, id); err != nil {
 				return err
-- 
2.43.0


From 6a91696f0242d2035083ed8df9876829f3398f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:02 +0000
Subject: [PATCH 17/47] fix: a failed read of a stored vector is an error, not
 a missing document

---
 pkg/hnsw/index.go                | 58 ++++++++++++++++++++++------
 pkg/hnsw/insert.go               | 65 +++++++++++++++++++++++---------
 pkg/hnsw/neighbor_connections.go | 10 ++++-
 pkg/hnsw/search.go               | 19 ++++++++--
 pkg/hnsw/search_with_max_dist.go |  6 ++-
 5 files changed, 123 insertions(+), 35 deletions(-)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 0243294..5a18a92 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -533,7 +533,10 @@ func (h *hnsw) distBetweenNodeAndVec(nodeId uint64, vecB []float32) (float32, bo
 		return h.pq.DistanceBetweenCompressedAndUncompressedVectors(vecB, v1), true, nil
 	}
 
-	node := h.nodeByID(nodeId)
+	node, err := h.nodeByIDOrErr(nodeId)
+	if err != nil {
+		return 0, false, err
+	}
 	if node == nil {
 		return 0, false, fmt.Errorf("could not get node at docID %d", nodeId)
 	}
@@ -601,6 +604,17 @@ func (h *hnsw) keepUntilFlush(node *vertex) {
 }
 
 func (h *hnsw) nodeByID(id uint64) *vertex {
+	v, err := h.nodeByIDOrErr(id)
+	if err != nil {
+		fmt.Println("nodeByID: could not get node", id, h.className, err)
+		return nil
+	}
+	return v
+}
+
+// nodeByIDOrErr is like nodeByID, but tells a node that does not exist (nil)
+// from one that could not be read
+func (h *hnsw) nodeByIDOrErr(id uint64) (*vertex, error) {
 	var (
 		value []byte
 		v     *vertex
@@ -610,27 +624,49 @@ func (h *hnsw) nodeByID(id uint64) *vertex {
 	if ok {
 		if vertexValue, ok := val.(*vertex); ok {
 			// Now vertexValue is a pointer to the cached vertex object
-			return vertexValue
+			return vertexValue, nil
 		} else {
-			fmt.Println("Value is not a vertex.")
-			return nil
+			return nil, fmt.Errorf("value %d is not a vertex", id)
 		}
 	} else if node, ok := h.unflushed.Load(id); ok {
-		return node.(*vertex)
+		return node.(*vertex), nil
 	} else {
-		_, value, err = h.nodes.KVGet(h.className, fmt.Sprintf("%d", id))
+		value, err = h.readKey(fmt.Sprintf("%d", id))
+		if errors.Is(err, collection.ErrEntryNotFound) {
+			return nil, nil
+		}
 		if err != nil {
-			fmt.Println("nodeByID: could not get node", id, h.className, err)
-			return nil
+			return nil, errors.Wrapf(err, "get node %d", id)
 		}
 		err = json.Unmarshal(value, &v)
 		if err != nil {
-			fmt.Println("nodeByID: could not Unmarshal node", err)
-			return nil
+			return nil, errors.Wrapf(err, "unmarshal node %d", id)
 		}
 		h.indexCache.Add(id, v)
-		return v
+		return v, nil
+	}
+}
+
+// readKey reads a key of the stored index. The store reports a key as not found
+// also when it failed to read its root, so that answer is verified with the
+// count, which is the first key to be stored.
+func (h *hnsw) readKey(key string) ([]byte, error) {
+	_, value, err := h.nodes.KVGet(h.className, key)
+	if !errors.Is(err, collection.ErrEntryNotFound) {
+		return value, err
+	}
+	isEmpty, emptyErr := h.nodes.IsEmpty(h.className)
+	if emptyErr != nil {
+		return nil, emptyErr
+	}
+	if isEmpty {
+		return nil, err
+	}
+	if _, _, err = h.nodes.KVGet(h.className, countKey); err != nil {
+		return nil, fmt.Errorf("index %s cannot be read: %v", h.className, err)
 	}
+	_, value, err = h.nodes.KVGet(h.className, key)
+	return value, err
 }
 
 func (h *hnsw) Drop(ctx context.Context) error {
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index f3fc392..d4c6ef2 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -16,6 +16,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"math"
+	"sync"
 	"time"
 
 	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
@@ -117,6 +118,19 @@ func (h *hnsw) insertInitialElement(node *vertex, nodeVec []float32) error {
 }
 
 func (h *hnsw) Flush(docCount uint64) error {
+	// the count goes first: readKey relies on it, and ids stay reserved if the
+	// rest fails
+	c := &count{
+		Count: docCount,
+	}
+	cBytes, err := json.Marshal(c)
+	if err != nil {
+		return errors.Wrapf(err, "marshal count %d", docCount)
+	}
+	err = h.nodes.KVPut(h.className, countKey, cBytes)
+	if err != nil {
+		return errors.Wrapf(err, "put count %d", docCount)
+	}
 	keys := h.indexCache.Keys()
 	h.unflushed.Range(func(key, _ interface{}) bool {
 		keys = append(keys, key)
@@ -147,6 +161,14 @@ func (h *hnsw) Flush(docCount uint64) error {
 		h.unflushed.Delete(node.Id)
 		h.indexCache.Add(node.Id, node)
 	}
+	epNode, err := h.nodeByIDOrErr(h.entryPointID)
+	if err != nil {
+		return errors.Wrapf(err, "get entrypoint %d", h.entryPointID)
+	}
+	if epNode == nil {
+		// no vector was added yet
+		return h.commitLog.Flush()
+	}
 	ep := &entrypoint{
 		ID: h.entryPointID,
 	}
@@ -159,22 +181,11 @@ func (h *hnsw) Flush(docCount uint64) error {
 		return errors.Wrapf(err, "put entrypoint %d", h.entryPointID)
 	}
 
-	c := &count{
-		Count: docCount,
-	}
-	cBytes, err := json.Marshal(c)
-	if err != nil {
-		return errors.Wrapf(err, "marshal count %d", h.entryPointID)
-	}
-	err = h.nodes.KVPut(h.className, countKey, cBytes)
-	if err != nil {
-		return errors.Wrapf(err, "put count %d", h.entryPointID)
-	}
 	return h.commitLog.Flush()
 }
 
 func (h *hnsw) GetDocCount() (uint64, error) {
-	_, cBytes, err := h.nodes.KVGet(h.className, countKey)
+	cBytes, err := h.readKey(countKey)
 	if err != nil {
 		return 0, errors.Wrapf(err, "put count %d", h.entryPointID)
 	}
@@ -190,22 +201,33 @@ func (h *hnsw) GetDocCount() (uint64, error) {
 
 // hasNoVectors tells whether no vector has been added to the index yet, neither
 // flushed nor still in memory.
-func (h *hnsw) hasNoVectors() bool {
+func (h *hnsw) hasNoVectors() (bool, error) {
 	if h.indexCache.Len() > 0 {
-		return false
+		return false, nil
 	}
 	count, err := h.GetDocCount()
 	if err != nil {
-		return errors.Is(err, collection.ErrEntryNotFound)
+		if errors.Is(err, collection.ErrEntryNotFound) {
+			return true, nil
+		}
+		return false, err
+	}
+	if count == 0 {
+		return true, nil
 	}
-	return count == 0
+	_, err = h.readKey(entrypointKey)
+	if errors.Is(err, collection.ErrEntryNotFound) {
+		// ids were reserved, but nothing could be stored
+		return true, nil
+	}
+	return false, err
 }
 
 func (h *hnsw) LoadEntrypoint() error {
 	h.Lock()
 	defer h.Unlock()
 
-	_, v, err := h.nodes.KVGet(h.className, entrypointKey)
+	v, err := h.readKey(entrypointKey)
 	if err != nil {
 		if errors.Is(err, collection.ErrEntryNotFound) {
 			// nothing flushed yet, keep what is in memory
@@ -232,7 +254,14 @@ func (h *hnsw) insert(node *vertex, nodeVec []float32) error {
 	wasFirst := false
 	var firstInsertError error
 	h.initialInsertOnce.Do(func() {
-		if h.isEmpty() {
+		isFirst, err := h.hasNoVectors()
+		if err != nil {
+			// try again with the next insert
+			h.initialInsertOnce = &sync.Once{}
+			wasFirst, firstInsertError = true, err
+			return
+		}
+		if isFirst {
 			wasFirst = true
 			firstInsertError = h.insertInitialElement(node, nodeVec)
 		}
diff --git a/pkg/hnsw/neighbor_connections.go b/pkg/hnsw/neighbor_connections.go
index 455b0b7..3d2df17 100644
--- a/pkg/hnsw/neighbor_connections.go
+++ b/pkg/hnsw/neighbor_connections.go
@@ -138,7 +138,10 @@ func (n *neighborFinderConnector) doAtLevel(level int) error {
 func (n *neighborFinderConnector) connectNeighborAtLevel(neighborID uint64,
 	level int,
 ) error {
-	neighbor := n.graph.nodeByID(neighborID)
+	neighbor, err := n.graph.nodeByIDOrErr(neighborID)
+	if err != nil {
+		return err
+	}
 	if skip := n.skipNeighbor(neighbor); skip {
 		return nil
 	}
@@ -290,7 +293,10 @@ func (n *neighborFinderConnector) pickEntrypoint() error {
 }
 
 func (n *neighborFinderConnector) tryEpCandidate(candidate uint64) (bool, error) {
-	node := n.graph.nodeByID(candidate)
+	node, err := n.graph.nodeByIDOrErr(candidate)
+	if err != nil {
+		return false, err
+	}
 	if node == nil {
 		return false, nil
 	}
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index a8c6619..5b9cfc4 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -204,7 +204,10 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 			break
 		}
 		//h.RLock()
-		candidateNode := h.nodeByID(candidate.ID)
+		candidateNode, err := h.nodeByIDOrErr(candidate.ID)
+		if err != nil {
+			return nil, err
+		}
 		//h.RUnlock()
 		if candidateNode == nil {
 			// could have been a node that already had a tombstone attached and was
@@ -245,6 +248,7 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 		nds := []neighbourDistance{}
 		wg := sync.WaitGroup{}
 		lock := sync.Mutex{}
+		var readErr error
 		for i, neighborID := range connectionsReusable {
 			if ok := visited.Visited(neighborID); ok {
 				// skip if we've already visited this neighbor
@@ -265,6 +269,9 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 					distance, ok, err = h.distanceToFloatNode(floatDistancer, neighborID)
 				}
 				if err != nil {
+					lock.Lock()
+					readErr = err
+					lock.Unlock()
 					return
 				}
 				if !ok {
@@ -277,6 +284,9 @@ func (h *hnsw) searchLayerByVector(queryVector []float32,
 			}(i, neighborID)
 		}
 		wg.Wait()
+		if readErr != nil {
+			return nil, readErr
+		}
 		for _, nd := range nds {
 			distance, neighborID := nd.dist, nd.id
 			if distance < worstResultDistance || results.Len() < ef {
@@ -419,9 +429,12 @@ func (h *hnsw) distanceToByteNode(distancer *ssdhelpers.PQDistancer,
 func (h *hnsw) distanceToFloatNode(distancer distancer.Distancer,
 	nodeID uint64,
 ) (float32, bool, error) {
-	node := h.nodeByID(nodeID)
+	node, err := h.nodeByIDOrErr(nodeID)
+	if err != nil {
+		return 0, false, err
+	}
 	if node == nil {
-		return 0, false, fmt.Errorf("get vector of ID %d failed\n", nodeID)
+		return 0, false, nil
 	}
 
 	dist, _, err := distancer.Distance(node.Vector)
diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index d0e23e1..775b67f 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -34,7 +34,11 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 		// no limit requested: do not cut the search off after the first hit
 		ef = unlimitedSearchEF
 	}
-	if h.hasNoVectors() {
+	isEmpty, err := h.hasNoVectors()
+	if err != nil {
+		return nil, nil, err
+	}
+	if isEmpty {
 		return nil, nil, nil
 	}
 	entryPointID := h.entryPointID
-- 
2.43.0


From 41d6d16aa125ffe5df216fe60b2838e80f7e3923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:10 +0000
Subject: [PATCH 18/47] fix: large collections accept new documents after a
 restart

---
 pkg/hnsw/index.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 5a18a92..0145b6a 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -280,6 +280,23 @@ func New(cfg Config, uc UserConfig, kvStore *collection.KeyValue) (*hnsw, error)
 		indexCache: indexCache,
 	}
 
+	// the vectors of stored nodes are stored with them, do not depend on the
+	// caller still having them
+	vectorCache.vectorForID = func(ctx context.Context, id uint64) ([]float32, error) {
+		vec, err := cfg.VectorForIDThunk(ctx, id)
+		if err == nil {
+			return vec, nil
+		}
+		node, nodeErr := index.nodeByIDOrErr(id)
+		if nodeErr != nil {
+			return nil, nodeErr
+		}
+		if node == nil || len(node.Vector) == 0 {
+			return nil, err
+		}
+		return node.Vector, nil
+	}
+
 	index.tombstoneCleanupCycle = cyclemanager.New(
 		cyclemanager.NewFixedIntervalTicker(index.cleanupInterval),
 		index.tombstoneCleanup)
-- 
2.43.0


From 5f79f5aa8da74f8882842b899a67d8745da4cc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:27 +0000
Subject: [PATCH 19/47] fix: reject documents that cannot be stored before any
 of the batch is, without a crash

---
 adapters/handlers/documents.go |  5 +-
 pkg/document/document.go       | 84 ++++++++++++++++++++++++++++++++++
 2 files changed, 88 insertions(+), 1 deletion(-)

diff --git a/adapters/handlers/documents.go b/adapters/handlers/documents.go
index 0b43155..f71dfaf 100644
--- a/adapters/handlers/documents.go
+++ b/adapters/handlers/documents.go
@@ -24,9 +24,12 @@ func (s *Handler) FaveAddDocumentsHandler(request operations.FaveAddDocumentsPar
 	documents := make([]*document.Document, len(documentsRaw.Documents))
 
 	for i, v := range documentsRaw.Documents {
+		if v == nil {
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Document cannot be blank"))
+		}
 		props, ok := v.Properties.(map[string]interface{})
 		if !ok {
-			continue
+			return operations.NewFaveAddDocumentsBadRequest().WithPayload(createErrorResponseObject("Document should have properties"))
 		}
 		d := &document.Document{
 			ID:         string(v.ID),
diff --git a/pkg/document/document.go b/pkg/document/document.go
index b1ab181..afad8a2 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -388,6 +388,9 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if err != nil {
 		return err
 	}
+	if err = c.validateDocuments(namespacedCollection, propertiesToIndex, documents); err != nil {
+		return err
+	}
 	count, err := index.GetDocCount()
 	if err != nil {
 		if !isNotFound(err) {
@@ -411,6 +414,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		c.nextIDs[namespacedCollection] = indexId
 	}()
 	for _, doc := range documents {
+		doc = doc.clone()
 		doc.Properties["id"] = doc.ID
 
 		//check if vector is already present in the properties
@@ -522,6 +526,86 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	return nil
 }
 
+// clone copies the document, so that the one of the caller can be used again
+// when adding it fails.
+func (d *Document) clone() *Document {
+	properties := make(map[string]interface{}, len(d.Properties)+2)
+	for name, value := range d.Properties {
+		properties[name] = value
+	}
+	return &Document{ID: d.ID, Properties: properties}
+}
+
+// validateDocuments finds the documents that cannot be added before any of them
+// is.
+func (c *Client) validateDocuments(namespacedCollection string, propertiesToIndex []string, documents []*Document) error {
+	schemas, err := c.api.DocList(c.sessionId, c.pod)
+	if err != nil {
+		return err
+	}
+	schema := schemas[namespacedCollection]
+	fields := append(append(append([]collection.SIndex{}, schema.SimpleIndexes...), schema.MapIndexes...), schema.ListIndexes...)
+	for i, doc := range documents {
+		if doc == nil || doc.Properties == nil {
+			return fmt.Errorf("document %d has no properties", i)
+		}
+		if doc.ID == "" {
+			return fmt.Errorf("document %d has no id", i)
+		}
+		if doc.Properties["vector"] == nil {
+			for _, property := range propertiesToIndex {
+				value, ok := doc.Properties[property]
+				if _, isString := value.(string); ok && !isString {
+					return fmt.Errorf("property %s of document %s cannot be vectorized", property, doc.ID)
+				}
+			}
+		}
+
+		// the fields as they will be stored
+		data, err := json.Marshal(doc.Properties)
+		if err != nil {
+			return fmt.Errorf("document %s: %w", doc.ID, err)
+		}
+		stored := map[string]interface{}{}
+		if err = json.Unmarshal(data, &stored); err != nil {
+			return fmt.Errorf("document %s: %w", doc.ID, err)
+		}
+		for _, field := range fields {
+			if field.FieldName == collection.DefaultIndexFieldName || field.FieldName == hnswIndexName {
+				continue
+			}
+			if !canBeIndexed(stored[field.FieldName], field.FieldType) {
+				return fmt.Errorf("field %s of document %s does not fit its index", field.FieldName, doc.ID)
+			}
+		}
+	}
+	return nil
+}
+
+func canBeIndexed(value interface{}, indexType collection.IndexType) bool {
+	switch v := value.(type) {
+	case string:
+		return indexType == collection.StringIndex
+	case float64:
+		return indexType == collection.NumberIndex
+	case map[string]interface{}:
+		for _, item := range v {
+			if _, ok := item.(string); !ok {
+				return false
+			}
+		}
+		return indexType == collection.MapIndex
+	case []interface{}:
+		for _, item := range v {
+			if _, ok := item.(string); !ok {
+				return false
+			}
+		}
+		return indexType == collection.ListIndex
+	}
+	return false
+}
+
 func alreadyOpened(err error) bool {
 	return errors.Is(err, collection.ErrDocumentDBAlreadyOpened)
 }
-- 
2.43.0


From 33ef9a574e1f2f5e0e235ce22b660865517fd426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:33 +0000
Subject: [PATCH 20/47] fix: reject blank and unsupported indexes instead of
 crashing or dropping them

---
 adapters/handlers/collections.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adapters/handlers/collections.go b/adapters/handlers/collections.go
index 6281488..c166f73 100644
--- a/adapters/handlers/collections.go
+++ b/adapters/handlers/collections.go
@@ -18,6 +18,9 @@ func (s *Handler) FaveCreateCollectionHandler(request operations.FaveCreateColle
 	}
 	indexes := make(map[string]collection.IndexType)
 	for _, v := range collectionRaw.Indexes {
+		if v == nil || v.FieldName == "" {
+			return operations.NewFaveCreateCollectionBadRequest().WithPayload(createErrorResponseObject("Index should have a field name"))
+		}
 		switch v.FieldType {
 		case "string":
 			indexes[v.FieldName] = collection.StringIndex
@@ -27,7 +30,6 @@ func (s *Handler) FaveCreateCollectionHandler(request operations.FaveCreateColle
 			indexes[v.FieldName] = collection.MapIndex
 		case "list":
 			indexes[v.FieldName] = collection.ListIndex
-		case "bytes":
 		default:
 			return operations.NewFaveCreateCollectionBadRequest().WithPayload(createErrorResponseObject("Wrong index type"))
 		}
-- 
2.43.0


From 1e4f608ddf601ba5c7d316503fb4f3770f7bbdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:42 +0000
Subject: [PATCH 21/47] fix: replaced documents do not use up the limit of a
 near-search

---
 pkg/document/document.go | 73 +++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 46 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index afad8a2..a737e99 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -634,49 +634,11 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
-	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, limit, nil)
+	ids, dists, err := index.KnnSearchByVectorMaxDist(vector.ToArray(), distance, 800, nil)
 	if err != nil {
 		return nil, nil, err
 	}
-	if limit != 0 && len(ids) > limit {
-		ids = ids[:limit]
-		dists = dists[:limit]
-	}
-	documents := make([][]byte, len(ids))
-	wg := sync.WaitGroup{}
-	errCh := make(chan error, len(ids))
-	for i, id := range ids {
-		wg.Add(1)
-		go func(i int, id uint64) {
-			defer wg.Done()
-			expr := fmt.Sprintf("%s=%d", hnswIndexName, id)
-			docs, err := c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, 1)
-			if c.isStale(namespacedCollection, expr, id, docs, err) {
-				return
-			}
-			if err != nil {
-				fmt.Println("doc find error", err, id, expr, ids)
-				errCh <- err
-				return
-			}
-			if len(docs) == 0 {
-				errCh <- fmt.Errorf("document not found %d", id)
-				return
-			}
-			documents[i] = docs[0]
-		}(i, id)
-	}
-	go func() {
-		wg.Wait()
-		close(errCh)
-	}()
-
-	for err := range errCh {
-		return nil, nil, err
-	}
-
-	documents, dists = dropStale(documents, dists)
-	return documents, dists, nil
+	return c.nearestDocuments(namespacedCollection, ids, dists, limit)
 }
 
 func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, distance float32, limit int) ([][]byte, []float32, error) {
@@ -696,11 +658,31 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	if err != nil {
 		return nil, nil, err
 	}
-	if limit != 0 && len(ids) > limit {
-		ids = ids[:limit]
-		dists = dists[:limit]
+	return c.nearestDocuments(namespacedCollection, ids, dists, limit)
+}
+
+// nearestDocuments returns the documents of the first entries of the vector
+// index, up to the limit. Entries of replaced documents do not use up the limit.
+func (c *Client) nearestDocuments(namespacedCollection string, ids []uint64, dists []float32, limit int) ([][]byte, []float32, error) {
+	documents, documentDists := [][]byte{}, []float32{}
+	for len(ids) > 0 && (limit == 0 || len(documents) < limit) {
+		n := len(ids)
+		if limit != 0 && n > limit-len(documents) {
+			n = limit - len(documents)
+		}
+		found, err := c.documentsByIndexID(namespacedCollection, ids[:n])
+		if err != nil {
+			return nil, nil, err
+		}
+		found, foundDists := dropStale(found, dists[:n])
+		documents = append(documents, found...)
+		documentDists = append(documentDists, foundDists...)
+		ids, dists = ids[n:], dists[n:]
 	}
+	return documents, documentDists, nil
+}
 
+func (c *Client) documentsByIndexID(namespacedCollection string, ids []uint64) ([][]byte, error) {
 	documents := make([][]byte, len(ids))
 	wg := sync.WaitGroup{}
 	errCh := make(chan error, len(ids))
@@ -730,11 +712,10 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	}()
 
 	for err := range errCh {
-		return nil, nil, err
+		return nil, err
 	}
 
-	documents, dists = dropStale(documents, dists)
-	return documents, dists, nil
+	return documents, nil
 }
 
 // isStale tells whether the result of looking up an entry of the vector index
-- 
2.43.0


From 6557a75b85c38010ed8b7330296564270b549956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:37 +0000
Subject: [PATCH 22/47] fix: documents without a vector can be replaced

---
 pkg/document/document.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index a737e99..1a0d161 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -497,7 +497,11 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 
 				indexId++
 			} else {
-				doc.Properties[hnswIndexName] = -1
+				// no vector for this id: documents that share an id in the
+				// document store cannot be replaced independently
+				doc.Properties[hnswIndexName] = indexId
+
+				indexId++
 			}
 		}
 
-- 
2.43.0


From f93f0f2e0454a625e6da8b914ea15a95e30a2e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:52 +0000
Subject: [PATCH 23/47] fix: opening another pod does not mix up collections of
 the same name

---
 pkg/document/document.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 1a0d161..f47e5d7 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -122,6 +122,10 @@ func (c *Client) Login(username, password string) error {
 func (c *Client) OpenPod(pod string) error {
 	c.lock.Lock()
 	defer c.lock.Unlock()
+	c.addLock.Lock()
+	defer c.addLock.Unlock()
+	c.openLock.Lock()
+	defer c.openLock.Unlock()
 	c.pod = pod
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
@@ -137,6 +141,11 @@ func (c *Client) OpenPod(pod string) error {
 		return err
 	}
 	c.podInfo = pi
+	// the collections of another pod may have the same names
+	c.hnswLock.Lock()
+	c.indices = map[string]h.VectorIndex{}
+	c.hnswLock.Unlock()
+	c.nextIDs = map[string]uint64{}
 
 	//docs, _ := c.api.DocList(c.sessionId, c.pod)
 	//fmt.Println("docs", docs)
-- 
2.43.0


From 11539f9a5a2c91bf99148e23e331e8cd1f70141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:56 +0000
Subject: [PATCH 24/47] fix: a pod that was created completely survives a
 restart

---
 pkg/document/document.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index f47e5d7..7d5523a 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -130,11 +130,13 @@ func (c *Client) OpenPod(pod string) error {
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
 	}
+	created := false
 	if !c.api.IsPodExist(c.pod, c.sessionId) {
 		_, err := c.api.CreatePod(c.pod, c.sessionId)
 		if err != nil {
 			return err
 		}
+		created = true
 	}
 	pi, err := c.api.OpenPod(c.pod, c.sessionId)
 	if err != nil {
@@ -146,6 +148,12 @@ func (c *Client) OpenPod(pod string) error {
 	c.indices = map[string]h.VectorIndex{}
 	c.hnswLock.Unlock()
 	c.nextIDs = map[string]uint64{}
+	if created {
+		// the pod has to be complete when another process opens it
+		if err = c.api.CommitPodFeeds(c.pod, c.sessionId); err != nil {
+			return err
+		}
+	}
 
 	//docs, _ := c.api.DocList(c.sessionId, c.pod)
 	//fmt.Println("docs", docs)
-- 
2.43.0


From bb0cd0d460ca075c0c2162315e7040b693b8e6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:22 +0000
Subject: [PATCH 25/47] fix: a collection that could not be deleted is an error

---
 pkg/document/document.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 7d5523a..7d4ed39 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -244,14 +244,13 @@ func (c *Client) CreateCollection(col *Collection) error {
 	return c.api.CommitPodFeeds(c.pod, c.sessionId)
 }
 
-func (c *Client) DeleteCollection(collection string) error {
+func (c *Client) DeleteCollection(name string) error {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 	c.addLock.Lock()
 	defer c.addLock.Unlock()
 	c.openLock.Lock()
 	defer c.openLock.Unlock()
-	delete(c.nextIDs, namespace+collection)
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
 	}
@@ -259,15 +258,16 @@ func (c *Client) DeleteCollection(collection string) error {
 		return dfs.ErrPodNotOpen
 	}
 
-	namespacedCollection := namespace + collection
+	namespacedCollection := namespace + name
 
+	var docErr, kvErr error
 	wg := sync.WaitGroup{}
 	wg.Add(2)
 	go func() {
 		defer wg.Done()
-		err := c.api.DocDelete(c.sessionId, c.pod, namespacedCollection)
-		if err != nil {
-			c.logger.Errorf("delete collection failed :%s\n", err.Error())
+		docErr = c.api.DocDelete(c.sessionId, c.pod, namespacedCollection)
+		if docErr != nil {
+			c.logger.Errorf("delete collection failed :%s\n", docErr.Error())
 		}
 	}()
 
@@ -275,15 +275,23 @@ func (c *Client) DeleteCollection(collection string) error {
 		defer wg.Done()
 		kvStore := c.podInfo.GetKVStore()
 
-		err := kvStore.DeleteKVTable(namespacedCollection, c.podInfo.GetPodPassword())
-		if err != nil {
-			c.logger.Errorf("delete kv table failed :%s\n", err.Error())
+		kvErr = kvStore.DeleteKVTable(namespacedCollection, c.podInfo.GetPodPassword())
+		if kvErr != nil {
+			c.logger.Errorf("delete kv table failed :%s\n", kvErr.Error())
 		}
 	}()
 	wg.Wait()
 	c.hnswLock.Lock()
 	delete(c.indices, namespacedCollection)
 	c.hnswLock.Unlock()
+	// what is not there does not have to be deleted
+	if docErr != nil && !errors.Is(docErr, collection.ErrDocumentDBNotPresent) {
+		return docErr
+	}
+	if kvErr != nil && !errors.Is(kvErr, collection.ErrKVTableNotPresent) {
+		return kvErr
+	}
+	delete(c.nextIDs, namespacedCollection)
 	// an acknowledged deletion has to survive a restart
 	return c.api.CommitPodFeeds(c.pod, c.sessionId)
 }
-- 
2.43.0


From 069f7feff30569768861257390e2c5da79798462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:10 +0000
Subject: [PATCH 26/47] fix: the geo distance of antipodal points is a number

---
 pkg/hnsw/distancer/geo_spatial.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/hnsw/distancer/geo_spatial.go b/pkg/hnsw/distancer/geo_spatial.go
index f29a0f0..9228540 100644
--- a/pkg/hnsw/distancer/geo_spatial.go
+++ b/pkg/hnsw/distancer/geo_spatial.go
@@ -35,6 +35,9 @@ func geoDist(a, b []float32) (float32, bool, error) {
 	A := math.Sin(deltaLatRadian/2)*math.Sin(deltaLatRadian/2) +
 		math.Cos(latARadian)*math.Cos(latBRadian)*math.Sin(deltaLonRadian/2)*math.Sin(deltaLonRadian/2)
 
+	// rounding can push antipodal points slightly above one
+	A = math.Min(A, 1)
+
 	C := 2 * math.Atan2(math.Sqrt(A), math.Sqrt(1-A))
 
 	return float32(R * C), true, nil
-- 
2.43.0


From c21e7d967b16ccf538f5e378a68d5d76ed3c56aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:14 +0000
Subject: [PATCH 27/47] fix: answers of the API carry numbers exactly as they
 were stored

---
 adapters/handlers/documents.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/adapters/handlers/documents.go b/adapters/handlers/documents.go
index f71dfaf..7ba05b3 100644
--- a/adapters/handlers/documents.go
+++ b/adapters/handlers/documents.go
@@ -1,6 +1,7 @@
 package handlers
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"github.com/fairDataSociety/FaVe/models"
@@ -59,8 +60,7 @@ func (s *Handler) FaveGetNearestDocumentsHandler(request operations.FaveGetNeare
 
 	documents := make([]*models.Document, len(documentsRaw))
 	for i, v := range documentsRaw {
-		props := map[string]interface{}{}
-		err := json.Unmarshal(v, &props)
+		props, err := decodeProperties(v)
 		if err != nil {
 			return operations.NewFaveGetNearestDocumentsBadRequest().WithPayload(createErrorResponseObject("Failed to get nearest documents :" + err.Error()))
 		}
@@ -99,8 +99,7 @@ func (s *Handler) FaveGetNearestDocumentsByVectorHandler(request operations.Fave
 
 	documents := make([]*models.Document, len(documentsRaw))
 	for i, v := range documentsRaw {
-		props := map[string]interface{}{}
-		err := json.Unmarshal(v, &props)
+		props, err := decodeProperties(v)
 		if err != nil {
 			return operations.NewFaveGetNearestDocumentsByVectorBadRequest().WithPayload(createErrorResponseObject("Failed to get nearest documents :" + err.Error()))
 		}
@@ -129,8 +128,7 @@ func (s *Handler) GetDocumentsHandlerFunc(request operations.FaveGetDocumentsPar
 	if err != nil {
 		return operations.NewFaveGetNearestDocumentsBadRequest().WithPayload(createErrorResponseObject("Failed to get nearest documents :" + err.Error()))
 	}
-	props := map[string]interface{}{}
-	err = json.Unmarshal(documentRaw, &props)
+	props, err := decodeProperties(documentRaw)
 	if err != nil {
 		return operations.NewFaveGetNearestDocumentsBadRequest().WithPayload(createErrorResponseObject("Failed to get nearest documents :" + err.Error()))
 	}
@@ -143,3 +141,15 @@ func (s *Handler) GetDocumentsHandlerFunc(request operations.FaveGetDocumentsPar
 
 	return operations.NewGetDocumentsOK().WithPayload(d)
 }
+
+// decodeProperties keeps numbers as they were stored, also those that do not
+// fit a float64.
+func decodeProperties(document []byte) (map[string]interface{}, error) {
+	props := map[string]interface{}{}
+	decoder := json.NewDecoder(bytes.NewReader(document))
+	decoder.UseNumber()
+	if err := decoder.Decode(&props); err != nil {
+		return nil, err
+	}
+	return props, nil
+}
-- 
2.43.0


From 2ab89a6d79fb693a8e2264eba909bd21c34ee38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:09 +0000
Subject: [PATCH 28/47] fix: reject vectors that cannot be compared with the
 others before any of the batch is stored

---
 pkg/document/document.go | 106 ++++++++++++++++++++++-----------------
 pkg/hnsw/index.go        |   1 +
 pkg/hnsw/insert.go       |  28 +++++++----
 3 files changed, 80 insertions(+), 55 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 7d4ed39..21f3142 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -413,7 +413,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	if err != nil {
 		return err
 	}
-	if err = c.validateDocuments(namespacedCollection, propertiesToIndex, documents); err != nil {
+	if err = c.validateDocuments(namespacedCollection, index, propertiesToIndex, documents); err != nil {
 		return err
 	}
 	count, err := index.GetDocCount()
@@ -446,51 +446,19 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		if doc.Properties["vector"] != nil {
 			doc.Properties[hnswIndexName] = indexId
 
-			if slice, ok := doc.Properties["vector"].([]interface{}); ok {
-
-				vector := make([]float32, len(slice))
-				for j, v := range slice {
-					var result float32
-
-					switch value := v.(type) {
-					case json.Number:
-						f64Val, err := value.Float64()
-						if err != nil {
-							return fmt.Errorf("vector is not []float32")
-						} else {
-							result = float32(f64Val)
-						}
-					case float32:
-						result = value
-					case float64:
-						result = float32(value)
-					default:
-						return fmt.Errorf("vector is not []float32")
-					}
-					vector[j] = result
-				}
-				delete(doc.Properties, "vector")
-				err = index.Add(indexId, vector)
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					return err
-				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector)
-
-				indexId++
-			} else if slice, ok := doc.Properties["vector"].([]float32); ok {
-				delete(doc.Properties, "vector")
-				err = index.Add(indexId, slice)
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					return err
-				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), slice)
-
-				indexId++
-			} else {
-				return fmt.Errorf("vector format is now supported")
+			vector, err := toVector(doc.Properties["vector"])
+			if err != nil {
+				return err
+			}
+			delete(doc.Properties, "vector")
+			err = index.Add(indexId, vector)
+			if err != nil {
+				c.logger.Errorf("index.Add failed :%s\n", err.Error())
+				return err
 			}
+			c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector)
+
+			indexId++
 		} else {
 			// vectorize the properties
 			// add the vector in the properties before adding the document in the collection
@@ -567,13 +535,14 @@ func (d *Document) clone() *Document {
 
 // validateDocuments finds the documents that cannot be added before any of them
 // is.
-func (c *Client) validateDocuments(namespacedCollection string, propertiesToIndex []string, documents []*Document) error {
+func (c *Client) validateDocuments(namespacedCollection string, index h.VectorIndex, propertiesToIndex []string, documents []*Document) error {
 	schemas, err := c.api.DocList(c.sessionId, c.pod)
 	if err != nil {
 		return err
 	}
 	schema := schemas[namespacedCollection]
 	fields := append(append(append([]collection.SIndex{}, schema.SimpleIndexes...), schema.MapIndexes...), schema.ListIndexes...)
+	dimensions := 0
 	for i, doc := range documents {
 		if doc == nil || doc.Properties == nil {
 			return fmt.Errorf("document %d has no properties", i)
@@ -588,6 +557,18 @@ func (c *Client) validateDocuments(namespacedCollection string, propertiesToInde
 					return fmt.Errorf("property %s of document %s cannot be vectorized", property, doc.ID)
 				}
 			}
+		} else {
+			vector, err := toVector(doc.Properties["vector"])
+			if err != nil {
+				return fmt.Errorf("document %s: %w", doc.ID, err)
+			}
+			if err = index.ValidateBeforeInsert(vector); err != nil {
+				return fmt.Errorf("document %s: %w", doc.ID, err)
+			}
+			if dimensions != 0 && len(vector) != dimensions {
+				return fmt.Errorf("document %s: the vectors have different lengths", doc.ID)
+			}
+			dimensions = len(vector)
 		}
 
 		// the fields as they will be stored
@@ -611,6 +592,39 @@ func (c *Client) validateDocuments(namespacedCollection string, propertiesToInde
 	return nil
 }
 
+// toVector converts a vector as it was given by the user.
+func toVector(value interface{}) ([]float32, error) {
+	if vector, ok := value.([]float32); ok {
+		return vector, nil
+	}
+	slice, ok := value.([]interface{})
+	if !ok {
+		return nil, fmt.Errorf("vector format is now supported")
+	}
+	vector := make([]float32, len(slice))
+	for j, v := range slice {
+		var result float32
+
+		switch value := v.(type) {
+		case json.Number:
+			f64Val, err := value.Float64()
+			if err != nil {
+				return nil, fmt.Errorf("vector is not []float32")
+			} else {
+				result = float32(f64Val)
+			}
+		case float32:
+			result = value
+		case float64:
+			result = float32(value)
+		default:
+			return nil, fmt.Errorf("vector is not []float32")
+		}
+		vector[j] = result
+	}
+	return vector, nil
+}
+
 func canBeIndexed(value interface{}, indexType collection.IndexType) bool {
 	switch v := value.(type) {
 	case string:
diff --git a/pkg/hnsw/index.go b/pkg/hnsw/index.go
index 0145b6a..92ad826 100644
--- a/pkg/hnsw/index.go
+++ b/pkg/hnsw/index.go
@@ -188,6 +188,7 @@ type VectorIndex interface {
 	Flush(docCount uint64) error
 	GetDocCount() (uint64, error)
 	LoadEntrypoint() error
+	ValidateBeforeInsert(vector []float32) error
 	Add(id uint64, vector []float32) error
 	KnnSearchByVectorMaxDist(query []float32, dist float32, ef int,
 		allowList helpers.AllowList) ([]uint64, []float32, error)
diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index d4c6ef2..a935bbc 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -12,7 +12,6 @@
 package hnsw
 
 import (
-	"context"
 	"encoding/json"
 	"fmt"
 	"math"
@@ -38,19 +37,30 @@ type count struct {
 	Count uint64 `json:"count"`
 }
 
+// ValidateBeforeInsert tells whether Add can take the vector. A vector whose
+// distance to the others is not a number would make all of them unreachable.
 func (h *hnsw) ValidateBeforeInsert(vector []float32) error {
-	if h.isEmpty() {
-		return nil
+	if len(vector) == 0 {
+		return errors.Errorf("insert called with nil-vector")
+	}
+	for _, v := range vector {
+		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
+			return fmt.Errorf("vector has components that are not numbers")
+		}
+	}
+	isEmpty, err := h.hasNoVectors()
+	if err != nil || isEmpty {
+		return err
 	}
 	// check if vector length is the same as existing nodes
-	existingNodeVector, err := h.cache.get(context.Background(), h.entryPointID)
-	if err != nil {
+	existingNode, err := h.nodeByIDOrErr(h.Entrypoint())
+	if err != nil || existingNode == nil {
 		return err
 	}
 
-	if len(existingNodeVector) != len(vector) {
+	if len(existingNode.Vector) != len(vector) {
 		return fmt.Errorf("new node has a vector with length %v. "+
-			"Existing nodes have vectors with length %v", len(vector), len(existingNodeVector))
+			"Existing nodes have vectors with length %v", len(vector), len(existingNode.Vector))
 	}
 
 	return nil
@@ -58,8 +68,8 @@ func (h *hnsw) ValidateBeforeInsert(vector []float32) error {
 
 func (h *hnsw) Add(id uint64, vector []float32) error {
 	before := time.Now()
-	if len(vector) == 0 {
-		return errors.Errorf("insert called with nil-vector")
+	if err := h.ValidateBeforeInsert(vector); err != nil {
+		return err
 	}
 
 	h.metrics.InsertVector()
-- 
2.43.0


From a9cf75dfb7b19c1fc66a82e43aae1f35c9ca8f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:12 +0000
Subject: [PATCH 29/47] fix: searches and lookups never see a document that is
 half added or replaced

---
 pkg/document/document.go | 70 +++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 21f3142..0e638f4 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -56,6 +56,9 @@ type Client struct {
 	// nextIDs remembers per collection the first id that was not handed out by
 	// this client, also by adds that failed halfway
 	nextIDs map[string]uint64
+	// docLock makes the change of a document, in the vector index and in the
+	// document store, a single step for those who read
+	docLock sync.RWMutex
 }
 
 type Collection struct {
@@ -442,23 +445,14 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		doc = doc.clone()
 		doc.Properties["id"] = doc.ID
 
+		var vector []float32
 		//check if vector is already present in the properties
 		if doc.Properties["vector"] != nil {
-			doc.Properties[hnswIndexName] = indexId
-
-			vector, err := toVector(doc.Properties["vector"])
+			vector, err = toVector(doc.Properties["vector"])
 			if err != nil {
 				return err
 			}
 			delete(doc.Properties, "vector")
-			err = index.Add(indexId, vector)
-			if err != nil {
-				c.logger.Errorf("index.Add failed :%s\n", err.Error())
-				return err
-			}
-			c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector)
-
-			indexId++
 		} else {
 			// vectorize the properties
 			// add the vector in the properties before adding the document in the collection
@@ -474,41 +468,32 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 				if c.lookup == nil {
 					return fmt.Errorf("vectorizer is not initialized")
 				}
-				vector, err := c.lookup.Corpi([]string{vectorData})
+				corpi, err := c.lookup.Corpi([]string{vectorData})
 				if err != nil {
 					c.logger.Errorf("corpi failed :%s\n", err.Error())
 					return err
 				}
-
-				doc.Properties[hnswIndexName] = indexId
-				err = index.Add(indexId, vector.ToArray())
-				if err != nil {
-					c.logger.Errorf("index.Add failed :%s\n", err.Error())
-					return err
+				vector = corpi.ToArray()
+				if len(vector) == 0 {
+					return fmt.Errorf("vectorizer returned an empty vector")
 				}
-				c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector.ToArray())
-
-				indexId++
-			} else {
-				// no vector for this id: documents that share an id in the
-				// document store cannot be replaced independently
-				doc.Properties[hnswIndexName] = indexId
-
-				indexId++
 			}
 		}
 
+		// also without a vector: documents that share an id in the document
+		// store cannot be replaced independently
+		doc.Properties[hnswIndexName] = indexId
 		data, err := json.Marshal(doc.Properties)
 		if err != nil {
 			c.logger.Errorf("marshal document failed :%s\n", err.Error())
 			return err
 		}
 
-		err = c.api.DocPut(c.sessionId, c.pod, namespacedCollection, data)
+		err = c.storeDocument(namespacedCollection, index, indexId, vector, data)
 		if err != nil {
-			c.logger.Errorf("DocPut failed :%v\n", err.Error())
 			return err
 		}
+		indexId++
 		fmt.Println("added document", indexId)
 	}
 	err = index.Flush(indexId)
@@ -523,6 +508,27 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 	return nil
 }
 
+// storeDocument adds the document and its vector, if it has one.
+func (c *Client) storeDocument(namespacedCollection string, index h.VectorIndex, indexId uint64, vector []float32, data []byte) error {
+	c.docLock.Lock()
+	defer c.docLock.Unlock()
+	if vector != nil {
+		err := index.Add(indexId, vector)
+		if err != nil {
+			c.logger.Errorf("index.Add failed :%s\n", err.Error())
+			return err
+		}
+		c.documentCache.Add(fmt.Sprintf("%s/%s/%d", c.pod, namespacedCollection, indexId), vector)
+	}
+
+	err := c.api.DocPut(c.sessionId, c.pod, namespacedCollection, data)
+	if err != nil {
+		c.logger.Errorf("DocPut failed :%v\n", err.Error())
+		return err
+	}
+	return nil
+}
+
 // clone copies the document, so that the one of the caller can be used again
 // when adding it fails.
 func (d *Document) clone() *Document {
@@ -673,6 +679,8 @@ func (c *Client) GetNearDocuments(collection, text string, distance float32, lim
 	if err != nil {
 		return nil, nil, err
 	}
+	c.docLock.RLock()
+	defer c.docLock.RUnlock()
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -693,6 +701,8 @@ func (c *Client) GetNearDocumentsByVector(collection string, vector []float32, d
 	if err != nil {
 		return nil, nil, err
 	}
+	c.docLock.RLock()
+	defer c.docLock.RUnlock()
 	err = index.LoadEntrypoint()
 	if err != nil {
 		return nil, nil, err
@@ -794,6 +804,8 @@ func dropStale(documents [][]byte, dists []float32) ([][]byte, []float32) {
 }
 
 func (c *Client) GetDocument(collection, property, value string) ([]byte, error) {
+	c.docLock.RLock()
+	defer c.docLock.RUnlock()
 	namespacedCollection := namespace + collection
 	docIsOpen, err := c.api.IsDBOpened(c.sessionId, c.pod, namespacedCollection)
 	if err != nil {
-- 
2.43.0


From d770089091c5437be48723d9fa44229f656ad91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:27 +0000
Subject: [PATCH 30/47] fix: a collection without indexes of its own can be
 created

---
 pkg/document/document.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 0e638f4..805e73a 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -188,6 +188,9 @@ func (c *Client) CreateCollection(col *Collection) error {
 	if c.podInfo == nil {
 		return dfs.ErrPodNotOpen
 	}
+	if col.Indexes == nil {
+		col.Indexes = map[string]collection.IndexType{}
+	}
 	col.Indexes[hnswIndexName] = collection.NumberIndex
 
 	namespacedCollection := namespace + col.Name
-- 
2.43.0


From cde315e21eebce7d46d3278e51e6af6ba20d7c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:22 +0000
Subject: [PATCH 31/47] fix: a search vector with components that are not
 numbers is an error

---
 pkg/hnsw/insert.go               | 15 +++++++++++----
 pkg/hnsw/search_with_max_dist.go |  3 +++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index a935bbc..dc33cc6 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -43,10 +43,8 @@ func (h *hnsw) ValidateBeforeInsert(vector []float32) error {
 	if len(vector) == 0 {
 		return errors.Errorf("insert called with nil-vector")
 	}
-	for _, v := range vector {
-		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
-			return fmt.Errorf("vector has components that are not numbers")
-		}
+	if err := validateComponents(vector); err != nil {
+		return err
 	}
 	isEmpty, err := h.hasNoVectors()
 	if err != nil || isEmpty {
@@ -66,6 +64,15 @@ func (h *hnsw) ValidateBeforeInsert(vector []float32) error {
 	return nil
 }
 
+func validateComponents(vector []float32) error {
+	for _, v := range vector {
+		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
+			return fmt.Errorf("vector has components that are not numbers")
+		}
+	}
+	return nil
+}
+
 func (h *hnsw) Add(id uint64, vector []float32) error {
 	before := time.Now()
 	if err := h.ValidateBeforeInsert(vector); err != nil {
diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 775b67f..be9f7dd 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -25,6 +25,9 @@ const unlimitedSearchEF = 800
 func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	ef int, allowList helpers.AllowList,
 ) ([]uint64, []float32, error) {
+	if err := validateComponents(searchVec); err != nil {
+		return nil, nil, err
+	}
 	if h.distancerProvider.Type() == "cosine-dot" {
 		// cosine-dot requires normalized vectors, as the dot product and cosine
 		// similarity are only identical if the vector is normalized
-- 
2.43.0


From f2b958c43897f3560ff75c86c7ab9abc94b965f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:00 +0000
Subject: [PATCH 32/47] fix: ask the vectorizer for its health at the
 documented path

---
 pkg/vectorizer/rest/vectorizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/vectorizer/rest/vectorizer.go b/pkg/vectorizer/rest/vectorizer.go
index 515efa9..67aff01 100644
--- a/pkg/vectorizer/rest/vectorizer.go
+++ b/pkg/vectorizer/rest/vectorizer.go
@@ -26,7 +26,7 @@ func NewVectorizer(url string) (*Vectorizer, error) {
 		Timeout: time.Second * 10,
 	}
 
-	healthURL := fmt.Sprintf("%s/%s", url, healthCheckPath)
+	healthURL := fmt.Sprintf("%s%s", url, healthCheckPath)
 	resp, err := client.Get(healthURL)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From be1efa861dcfcabb936d68e147e0aee5d964fb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:03 +0000
Subject: [PATCH 33/47] fix: documents are found by their id whatever
 characters it has

---
 pkg/document/document.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 805e73a..5819276 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -27,6 +27,7 @@ const (
 	debugLevel = logrus.DebugLevel
 
 	hnswIndexName = "hnswId"
+	idIndexName   = "id"
 	namespace     = "fave_"
 )
 
@@ -821,6 +822,15 @@ func (c *Client) GetDocument(collection, property, value string) ([]byte, error)
 		}
 	}
 
+	if property == idIndexName && value != "" {
+		// ids are looked up as they are, not as an expression
+		doc, err := c.api.DocGet(c.sessionId, c.pod, namespacedCollection, value)
+		if isNotFound(err) {
+			return nil, fmt.Errorf("document not found")
+		}
+		return doc, err
+	}
+
 	expr := ""
 	if property != "" && value != "" {
 		expr = fmt.Sprintf("%s=%s", property, value)
-- 
2.43.0


From 1a0eab1dde1eb749e8c50e1f371aee8fd989f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:37 +0000
Subject: [PATCH 34/47] fix: lookups in lists and maps never return replaced or
 other documents

---
 pkg/document/document.go | 68 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 4 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 5819276..ccece3b 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -1,6 +1,7 @@
 package document
 
 import (
+	"bytes"
 	"context"
 	"encoding/json"
 	"fmt"
@@ -842,10 +843,66 @@ func (c *Client) GetDocument(collection, property, value string) ([]byte, error)
 	if len(docs) == 0 {
 		return nil, fmt.Errorf("document not found")
 	}
-	if expr != "" && !hasProperty(docs[0], property, value) {
-		return nil, fmt.Errorf("document not found")
+	if expr == "" {
+		return docs[0], nil
+	}
+	doc, err := c.currentDocument(namespacedCollection, docs, property, value)
+	if err != nil || doc != nil {
+		return doc, err
+	}
+	if indexedByItem(docs[0], property) {
+		// other documents, and replaced ones, can have the same index entry
+		docs, err = c.api.DocFind(c.sessionId, c.pod, namespacedCollection, expr, -1)
+		if err != nil {
+			return nil, err
+		}
+		doc, err = c.currentDocument(namespacedCollection, docs, property, value)
+		if err != nil || doc != nil {
+			return doc, err
+		}
 	}
-	return docs[0], nil
+	return nil, fmt.Errorf("document not found")
+}
+
+// currentDocument returns the first of the found documents that has the
+// requested property and has not been replaced. The underlying store keeps the
+// entries of replaced documents in the indexes of lists and maps.
+func (c *Client) currentDocument(namespacedCollection string, docs [][]byte, property, value string) ([]byte, error) {
+	for _, doc := range docs {
+		if !hasProperty(doc, property, value) {
+			continue
+		}
+		if !indexedByItem(doc, property) {
+			return doc, nil
+		}
+		found := struct {
+			ID string `json:"id"`
+		}{}
+		if err := json.Unmarshal(doc, &found); err != nil {
+			return nil, err
+		}
+		current, err := c.api.DocGet(c.sessionId, c.pod, namespacedCollection, found.ID)
+		if err != nil && !isNotFound(err) {
+			return nil, err
+		}
+		if bytes.Equal(current, doc) {
+			return doc, nil
+		}
+	}
+	return nil, nil
+}
+
+// indexedByItem tells whether the property of the document is a list or a map.
+func indexedByItem(doc []byte, property string) bool {
+	props := map[string]interface{}{}
+	if err := json.Unmarshal(doc, &props); err != nil {
+		return false
+	}
+	switch props[property].(type) {
+	case []interface{}, map[string]interface{}:
+		return true
+	}
+	return false
 }
 
 // hasProperty tells whether the property of the document has the given value.
@@ -869,8 +926,11 @@ func hasProperty(doc []byte, property, value string) bool {
 			}
 		}
 	case map[string]interface{}:
+		if key, item, ok := strings.Cut(value, ":"); ok {
+			return v[key] == item
+		}
 		for key, item := range v {
-			if s, ok := item.(string); ok && key+s == strings.ReplaceAll(value, ":", "") {
+			if s, ok := item.(string); ok && key+s == value {
 				return true
 			}
 		}
-- 
2.43.0


From ff5b03616a40358ea47ffcdf1116e6ce92364ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:12 +0000
Subject: [PATCH 35/47] fix: searches of the vector index see vectors that are
 not flushed yet and report failed reads

---
 pkg/hnsw/flat_search.go |  6 +++++-
 pkg/hnsw/search.go      | 11 +++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/flat_search.go b/pkg/hnsw/flat_search.go
index 141b7ce..b9f27aa 100644
--- a/pkg/hnsw/flat_search.go
+++ b/pkg/hnsw/flat_search.go
@@ -33,7 +33,11 @@ func (h *hnsw) flatSearch(queryVector []float32, limit int,
 		//	h.RUnlock()
 		//	continue
 		//}
-		c := h.nodeByID(candidate)
+		c, err := h.nodeByIDOrErr(candidate)
+		if err != nil {
+			h.RUnlock()
+			return nil, nil, err
+		}
 		if c == nil || h.hasTombstone(candidate) {
 			h.RUnlock()
 			continue
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 5b9cfc4..5bef254 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -477,7 +477,11 @@ func (h *hnsw) handleDeletedNode(docID uint64) {
 func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 	ef int, allowList helpers.AllowList,
 ) ([]uint64, []float32, error) {
-	if h.isEmpty() {
+	isEmpty, err := h.hasNoVectors()
+	if err != nil {
+		return nil, nil, err
+	}
+	if isEmpty {
 		return nil, nil, nil
 	}
 	entryPointID := h.entryPointID
@@ -506,7 +510,10 @@ func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 		// deleted), and not under Maintenance is a viable candidate
 		for res.Len() > 0 {
 			cand := res.Pop()
-			n := h.nodeByID(cand.ID)
+			n, err := h.nodeByIDOrErr(cand.ID)
+			if err != nil {
+				return nil, nil, err
+			}
 			if n == nil {
 				// we have found a node in results that is nil. This means it was
 				// deleted, but not cleaned up properly. Make sure to add a tombstone to
-- 
2.43.0


From 5d90c2a072545a7977c823d9b17f23c0fcf5106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:12 +0000
Subject: [PATCH 36/47] fix: searches within a distance return vectors whose
 distance is negative

---
 pkg/hnsw/search_with_max_dist.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index be9f7dd..395dde0 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -93,9 +93,6 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 			// slightly below zero: these are the best matches, not invalid ones
 			elem.Dist = 0
 		}
-		if elem.Dist < 0 {
-			continue
-		}
 		if elem.Dist > dist {
 			break
 		}
-- 
2.43.0


From 2c8c06bc21d779c87b87c541ca145d3d3ece836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:36 +0000
Subject: [PATCH 37/47] fix: a property named like hnswId in another case hid
 the document from near-search

---
 pkg/document/document.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index ccece3b..86a3f02 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -789,10 +789,8 @@ func (c *Client) isStale(namespacedCollection, expr string, id uint64, docs [][]
 		return errors.Is(err, collection.ErrEntryNotFound) || (err == nil && count.Count == 0)
 	}
 	// the lookup answers with the next higher entry when there is no exact match
-	found := struct {
-		ID float64 `json:"hnswId"`
-	}{}
-	return json.Unmarshal(docs[0], &found) == nil && found.ID != float64(id)
+	found := map[string]interface{}{} // field names of a struct would match in any case
+	return json.Unmarshal(docs[0], &found) == nil && found[hnswIndexName] != float64(id)
 }
 
 // dropStale removes the results for which no document was found.
-- 
2.43.0


From c8e3cbff2020e85eb4b0f5b13bc119c0d6d69a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:27 +0000
Subject: [PATCH 38/47] fix: a collection name with a comma or line break does
 not damage other collections

---
 pkg/document/document.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 86a3f02..c34513a 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -190,6 +190,11 @@ func (c *Client) CreateCollection(col *Collection) error {
 	if c.podInfo == nil {
 		return dfs.ErrPodNotOpen
 	}
+	// the list of key-value tables of the pod is kept in lines of
+	// comma-separated fields
+	if strings.ContainsAny(col.Name, ",\n") {
+		return fmt.Errorf("collection name %q contains a comma or a line break", col.Name)
+	}
 	if col.Indexes == nil {
 		col.Indexes = map[string]collection.IndexType{}
 	}
-- 
2.43.0


From 35554decdfb3e1c87543ac5eab107fe5138dfc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:11 +0000
Subject: [PATCH 39/47] fix: searches within a distance return every vector
 once when distances are equal

---
 pkg/hnsw/search.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index 5bef254..cc3e813 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -113,12 +113,15 @@ func (h *hnsw) SearchByVectorDistance(vector []float32, targetDistance float32,
 		offsetCap := searchParams.offsetCapacity(ids)
 		totalLimitCap := searchParams.totalLimitCapacity(ids)
 
-		ids, dist = ids[offsetCap:totalLimitCap], dist[offsetCap:totalLimitCap]
-
-		if len(ids) == 0 {
+		if offsetCap >= totalLimitCap {
 			return false, nil
 		}
 
+		// The results of the previous search are replaced, not continued:
+		// vectors of equal distance may come in another order this time.
+		ids, dist = ids[:totalLimitCap], dist[:totalLimitCap]
+		resultIDs, resultDist = resultIDs[:0], resultDist[:0]
+
 		lastFound := dist[len(dist)-1]
 		shouldContinue = lastFound <= targetDistance
 
-- 
2.43.0


From fedde7ad1002a34462466a4fc0a3d62512e3a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:43 +0000
Subject: [PATCH 40/47] fix: a commit log that ends within an entry point
 record keeps the entry point before it

---
 pkg/hnsw/deserializer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index a4b91d6..47ca303 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -110,9 +110,11 @@ func (c *Deserializer) Do(fd *bufio.Reader,
 			var entrypoint uint64
 			var level uint16
 			entrypoint, level, err = c.ReadEP(fd)
-			out.Entrypoint = entrypoint
-			out.Level = level
-			out.EntrypointChanged = true
+			if err == nil {
+				out.Entrypoint = entrypoint
+				out.Level = level
+				out.EntrypointChanged = true
+			}
 			readThisRound = 10
 		case AddLinkAtLevel:
 			err = c.ReadLink(fd, out)
-- 
2.43.0


From edf69aaf28b600a9fdfd38cbc92b2e015d24d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:43 +0000
Subject: [PATCH 41/47] fix: condensing a commit log does not forget that links
 of a node with a high id were cleared

---
 pkg/hnsw/deserializer.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/hnsw/deserializer.go b/pkg/hnsw/deserializer.go
index 47ca303..2607ee9 100644
--- a/pkg/hnsw/deserializer.go
+++ b/pkg/hnsw/deserializer.go
@@ -383,8 +383,21 @@ func (c *Deserializer) ReadClearLinksAtLevel(r io.Reader, res *DeserializationRe
 	}
 
 	if int(id) >= len(res.Nodes) {
-		// node is out of bounds, so it can't exist, nothing to do here
-		return nil
+		if !keepReplaceInfo {
+			// node is out of bounds, so it can't exist, nothing to do here
+			return nil
+		}
+
+		// we are looking at a single log in isolation, the node can exist in an
+		// earlier one
+		newNodes, changed, err := growIndexToAccomodateNode(res.Nodes, id, c.logger)
+		if err != nil {
+			return err
+		}
+
+		if changed {
+			res.Nodes = newNodes
+		}
 	}
 
 	if keepReplaceInfo {
-- 
2.43.0


From 37c71027eb810f661fabd506d344a2da33d0664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:43 +0000
Subject: [PATCH 42/47] fix: switching the commit log always begins a newer
 file

---
 pkg/hnsw/commit_logger.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/commit_logger.go b/pkg/hnsw/commit_logger.go
index 0c3eb65..defb6f1 100644
--- a/pkg/hnsw/commit_logger.go
+++ b/pkg/hnsw/commit_logger.go
@@ -203,6 +203,17 @@ func getCurrentCommitLogFileName(dirPath string) (string, bool, error) {
 	return files[0].Name(), true, nil
 }
 
+// newerCommitLogFileName is the current time stamp, unless that is not newer
+// than the file it comes after: switching would then go on writing to that file
+// or, if the clock was set back, to one that is read before it.
+func newerCommitLogFileName(previous string) string {
+	ts := time.Now().Unix()
+	if prev, err := asTimeStamp(filepath.Base(previous)); err == nil && ts <= prev {
+		ts = prev + 1
+	}
+	return fmt.Sprintf("%d", ts)
+}
+
 func removeTmpScratchFiles(in []os.DirEntry) []os.DirEntry {
 	out := make([]os.DirEntry, len(in))
 	i := 0
@@ -512,7 +523,7 @@ func (l *hnswCommitLogger) switchCommitLogs(force bool) (bool, error) {
 	}
 
 	// this is a new commit log, initialize with the current time stamp
-	fileName := fmt.Sprintf("%d", time.Now().Unix())
+	fileName := newerCommitLogFileName(oldFileName)
 
 	if force {
 		l.logger.WithField("action", "commit_log_file_switched").
-- 
2.43.0


From 2b024ceaea925d3e38fd2b70928cfdac914d3891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:11 +0000
Subject: [PATCH 43/47] fix: index settings beyond the range of integers are
 limited to it, with their sign

---
 pkg/hnsw/user_config.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/hnsw/user_config.go b/pkg/hnsw/user_config.go
index 8fd42a5..f7d71ec 100644
--- a/pkg/hnsw/user_config.go
+++ b/pkg/hnsw/user_config.go
@@ -208,8 +208,8 @@ func (uc *UserConfig) validate() error {
 	return nil
 }
 
-// Tries to parse the int value from the map, if it overflows math.MaxInt64, it
-// uses math.MaxInt64 instead. This is to protect from rounding errors from
+// Tries to parse the int value from the map, if it is out of the range of int64,
+// it uses the nearest limit of that range instead. This is to protect from rounding errors from
 // json marshalling where the type may be assumed as float64
 func optionalIntFromMap(in map[string]interface{}, name string,
 	setFn func(v int),
@@ -228,12 +228,20 @@ func optionalIntFromMap(in map[string]interface{}, name string,
 	case json.Number:
 		asInt64, err = typed.Int64()
 	case float64:
-		asInt64 = int64(typed)
+		switch {
+		case typed >= math.MaxInt64:
+			asInt64 = math.MaxInt64
+		case typed <= math.MinInt64:
+			asInt64 = math.MinInt64
+		default:
+			asInt64 = int64(typed)
+		}
 	}
 	if err != nil {
 		// try to recover from error
 		if errors.Is(err, strconv.ErrRange) {
-			setFn(int(math.MaxInt64))
+			// Int64 returned the limit that was exceeded
+			setFn(int(asInt64))
 			return nil
 		}
 
-- 
2.43.0


From b631dba20a2c2b70c68133be7dead611d39a3c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:32 +0000
Subject: [PATCH 44/47] fix: nothing of a batch is stored when the vectorizer
 fails for one of its documents

---
 pkg/document/document.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index c34513a..4894aac 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -451,7 +451,12 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 		}
 		c.nextIDs[namespacedCollection] = indexId
 	}()
-	for _, doc := range documents {
+	// nothing is stored before all documents have their vectors, the vectorizer
+	// may fail for any of them
+	documents = append([]*Document{}, documents...)
+	vectors := make([][]float32, len(documents))
+	dimensions := 0
+	for i, doc := range documents {
 		doc = doc.clone()
 		doc.Properties["id"] = doc.ID
 
@@ -487,9 +492,21 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 				if len(vector) == 0 {
 					return fmt.Errorf("vectorizer returned an empty vector")
 				}
+				if err = index.ValidateBeforeInsert(vector); err != nil {
+					return err
+				}
 			}
 		}
+		if vector != nil {
+			if dimensions != 0 && len(vector) != dimensions {
+				return fmt.Errorf("document %s: the vectors have different lengths", doc.ID)
+			}
+			dimensions = len(vector)
+		}
+		documents[i], vectors[i] = doc, vector
+	}
 
+	for i, doc := range documents {
 		// also without a vector: documents that share an id in the document
 		// store cannot be replaced independently
 		doc.Properties[hnswIndexName] = indexId
@@ -499,7 +516,7 @@ func (c *Client) AddDocuments(collection string, propertiesToIndex []string, doc
 			return err
 		}
 
-		err = c.storeDocument(namespacedCollection, index, indexId, vector, data)
+		err = c.storeDocument(namespacedCollection, index, indexId, vectors[i], data)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 998b16f1e9990dcbae1bb8e0eb96382f88424085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:21 +0000
Subject: [PATCH 45/47] fix: when a pod cannot be opened, the one that was open
 before stays usable

---
 pkg/document/document.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/document/document.go b/pkg/document/document.go
index 4894aac..b2e5cc4 100644
--- a/pkg/document/document.go
+++ b/pkg/document/document.go
@@ -131,22 +131,23 @@ func (c *Client) OpenPod(pod string) error {
 	defer c.addLock.Unlock()
 	c.openLock.Lock()
 	defer c.openLock.Unlock()
-	c.pod = pod
 	if c.sessionId == "" {
 		return dfs.ErrUserNotLoggedIn
 	}
 	created := false
-	if !c.api.IsPodExist(c.pod, c.sessionId) {
-		_, err := c.api.CreatePod(c.pod, c.sessionId)
+	if !c.api.IsPodExist(pod, c.sessionId) {
+		_, err := c.api.CreatePod(pod, c.sessionId)
 		if err != nil {
 			return err
 		}
 		created = true
 	}
-	pi, err := c.api.OpenPod(c.pod, c.sessionId)
+	pi, err := c.api.OpenPod(pod, c.sessionId)
 	if err != nil {
 		return err
 	}
+	// only now: when opening fails, the pod that was open before stays in use
+	c.pod = pod
 	c.podInfo = pi
 	// the collections of another pod may have the same names
 	c.hnswLock.Lock()
-- 
2.43.0


From 8e8ffcb209ba0689323d21db458d6f797234ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:16 +0000
Subject: [PATCH 46/47] fix: the entrypoint and the highest layer are read
 under the lock of the index, a search may be loading them

---
 pkg/hnsw/insert.go               | 12 +++++++-----
 pkg/hnsw/search.go               |  6 ++++--
 pkg/hnsw/search_with_max_dist.go |  6 ++++--
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/hnsw/insert.go b/pkg/hnsw/insert.go
index dc33cc6..2990ade 100644
--- a/pkg/hnsw/insert.go
+++ b/pkg/hnsw/insert.go
@@ -178,24 +178,26 @@ func (h *hnsw) Flush(docCount uint64) error {
 		h.unflushed.Delete(node.Id)
 		h.indexCache.Add(node.Id, node)
 	}
-	epNode, err := h.nodeByIDOrErr(h.entryPointID)
+	// a search may be loading the entrypoint
+	entryPointID := h.Entrypoint()
+	epNode, err := h.nodeByIDOrErr(entryPointID)
 	if err != nil {
-		return errors.Wrapf(err, "get entrypoint %d", h.entryPointID)
+		return errors.Wrapf(err, "get entrypoint %d", entryPointID)
 	}
 	if epNode == nil {
 		// no vector was added yet
 		return h.commitLog.Flush()
 	}
 	ep := &entrypoint{
-		ID: h.entryPointID,
+		ID: entryPointID,
 	}
 	epBytes, err := json.Marshal(ep)
 	if err != nil {
-		return errors.Wrapf(err, "marshal entrypoint %d", h.entryPointID)
+		return errors.Wrapf(err, "marshal entrypoint %d", entryPointID)
 	}
 	err = h.nodes.KVPut(h.className, entrypointKey, epBytes)
 	if err != nil {
-		return errors.Wrapf(err, "put entrypoint %d", h.entryPointID)
+		return errors.Wrapf(err, "put entrypoint %d", entryPointID)
 	}
 
 	return h.commitLog.Flush()
diff --git a/pkg/hnsw/search.go b/pkg/hnsw/search.go
index cc3e813..dc23a02 100644
--- a/pkg/hnsw/search.go
+++ b/pkg/hnsw/search.go
@@ -487,7 +487,9 @@ func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 	if isEmpty {
 		return nil, nil, nil
 	}
-	entryPointID := h.entryPointID
+	h.RLock()
+	entryPointID, maxLayer := h.entryPointID, h.currentMaximumLayer
+	h.RUnlock()
 	entryPointDistance, ok, err := h.distBetweenNodeAndVec(entryPointID, searchVec)
 	if err != nil {
 		return nil, nil, errors.Wrap(err, "knn search: distance between entrypoint and query node")
@@ -497,7 +499,7 @@ func (h *hnsw) knnSearchByVector(searchVec []float32, k int,
 			"it has been flagged for cleanup and should be fixed in the next cleanup cycle")
 	}
 	// stop at layer 1, not 0!
-	for level := h.currentMaximumLayer; level >= 1; level-- {
+	for level := maxLayer; level >= 1; level-- {
 		eps := priorityqueue.NewMin(10)
 		eps.Insert(entryPointID, entryPointDistance)
 		res, err := h.searchLayerByVector(searchVec, eps, 1, level, nil)
diff --git a/pkg/hnsw/search_with_max_dist.go b/pkg/hnsw/search_with_max_dist.go
index 395dde0..5ee6c24 100644
--- a/pkg/hnsw/search_with_max_dist.go
+++ b/pkg/hnsw/search_with_max_dist.go
@@ -44,7 +44,9 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	if isEmpty {
 		return nil, nil, nil
 	}
-	entryPointID := h.entryPointID
+	h.RLock()
+	entryPointID, maxLayer := h.entryPointID, h.currentMaximumLayer
+	h.RUnlock()
 	entryPointDistance, ok, err := h.distBetweenNodeAndVec(entryPointID, searchVec)
 	if err != nil {
 		return nil, nil, errors.Wrap(err, "knn search: distance between entrypoint and query node")
@@ -55,7 +57,7 @@ func (h *hnsw) KnnSearchByVectorMaxDist(searchVec []float32, dist float32,
 	}
 
 	// stop at layer 1, not 0!
-	for level := h.currentMaximumLayer; level >= 1; level-- {
+	for level := maxLayer; level >= 1; level-- {
 		eps := priorityqueue.NewMin(1)
 		eps.Insert(entryPointID, entryPointDistance)
 		// ignore allowList on layers > 0
-- 
2.43.0


From 39a4da95f81570895bba12a512edb38f09a0438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:35 +0000
Subject: [PATCH 47/47] fix: the size of the vector cache is read under a lock,
 another search may be growing it

---
 pkg/hnsw/vector_cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/vector_cache.go b/pkg/hnsw/vector_cache.go
index ed9227d..e01f0c7 100644
--- a/pkg/hnsw/vector_cache.go
+++ b/pkg/hnsw/vector_cache.go
@@ -173,7 +173,10 @@ func (s *shardedLockCache) preload(id uint64, vec []float32) {
 
 //nolint:unused
 func (s *shardedLockCache) grow(node uint64) {
-	if node < uint64(len(s.cache)) {
+	s.shardedLocks[node%shardFactor].RLock()
+	size := uint64(len(s.cache))
+	s.shardedLocks[node%shardFactor].RUnlock()
+	if node < size {
 		return
 	}
 	s.maintenanceLock.Lock()
-- 
2.43.0

