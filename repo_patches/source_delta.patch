From 0ea3711c2ae596dd1e63a3d6fa7811fbab27e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 01/32] fix: batch mutator keeps the first mutation for another
 namespace

When the next queued mutation was for another log or map, handleBatch
handed back the first mutation of the finished batch instead of the one
just read, which was lost.
---
 mutator/batch/mutator_batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index e1ba19f..d82938f 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -121,7 +121,7 @@ func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw verifiable.KeyWr
 	cnt := bm.Conf.BatchSize
 	for {
 		if !bytes.Equal(seed.ns, obj.ns) {
-			return curSize, seed, nil
+			return curSize, obj, nil
 		}
 		curSize, err = verifiable.ApplyMutation(ctx, kw, curSize, obj.mut)
 		if err != nil {
-- 
2.43.0


From 0b0a31c06fd57637a294532f3c5092270cc04463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 02/32] fix: MapTreeHash returns its errors

Every error was dropped and (nil, nil) returned instead, so that a bad
tree size crashed callers rather than being refused.
---
 verifiable/service_map_tree_hash.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/verifiable/service_map_tree_hash.go b/verifiable/service_map_tree_hash.go
index f3df948..a7b361b 100644
--- a/verifiable/service_map_tree_hash.go
+++ b/verifiable/service_map_tree_hash.go
@@ -87,6 +87,7 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 		if !ok {
 			err = status.Errorf(codes.Internal, "unknown err: %s", err)
 		}
+		return nil, err
 	}
 
 	return rv, nil
-- 
2.43.0


From 2c15cbf3914c063c164714401a0ba8745a328451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 03/32] fix: MapTreeHash answers for a map without mutations

The mutation log has no root hash for size 0, so the lookup failed.
---
 verifiable/service_map_tree_hash.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/verifiable/service_map_tree_hash.go b/verifiable/service_map_tree_hash.go
index a7b361b..9fb2f00 100644
--- a/verifiable/service_map_tree_hash.go
+++ b/verifiable/service_map_tree_hash.go
@@ -56,6 +56,15 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 			return status.Errorf(codes.InvalidArgument, "bad tree size")
 		}
 
+		// Nothing in the map yet? Then neither is there a mutation log head
+		if treeSize == 0 {
+			rv = &pb.MapTreeHashResponse{
+				RootHash:    defaultLeafValues[0],
+				MutationLog: &pb.LogTreeHashResponse{},
+			}
+			return nil
+		}
+
 		// Need this for response
 		mutHead, err := lookupLogRootHashBySize(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, treeSize)
 		if err != nil {
-- 
2.43.0


From 38ecde47d8b9b01ba5e820a9fd11988ce9717af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 04/32] fix: map audit compares each root with the one before
 it

---
 verifiable/util_map_audit.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index ab8f4bc..79a7b89 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -265,7 +265,6 @@ func (a *auditState) ProcessUntilAtLeast(ctx context.Context, size int64) error
 				if err != nil {
 					return err
 				}
-				return nil
 			}
 
 			// Save for next time
-- 
2.43.0


From 3ad42a86864bf7dd18656bb110bc2f556102653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 05/32] fix: setting a map value keeps the data already stored
 for its leaf hash

---
 verifiable/insertion_map.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verifiable/insertion_map.go b/verifiable/insertion_map.go
index ca6fe20..2f2a37d 100644
--- a/verifiable/insertion_map.go
+++ b/verifiable/insertion_map.go
@@ -152,9 +152,13 @@ func setMapValue(ctx context.Context, db KeyWriter, vmap *pb.MapRef, mutationInd
 		return calcNodeHash(root, 0)
 	}
 
-	// Time to start writing our data
+	// Time to start writing our data, unless we have it already: what was stored first
+	// for a leaf hash stays, as earlier map sizes (and log entries) refer to it.
 	if !bytes.Equal(nextLeafHash, nullLeafHash) {
-		err = writeDataByLeafHash(ctx, db, pb.LogType_STRUCT_TYPE_MUTATION_LOG, nextLeafHash, mut.Value)
+		_, err = lookupDataByLeafHash(ctx, db, pb.LogType_STRUCT_TYPE_MUTATION_LOG, nextLeafHash)
+		if err == ErrNoSuchKey {
+			err = writeDataByLeafHash(ctx, db, pb.LogType_STRUCT_TYPE_MUTATION_LOG, nextLeafHash, mut.Value)
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 4dac9e02737c77c2c6bb6bf9d9e740f2089b7a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 06/32] fix: malformed requests are refused instead of crashing

---
 verifiable/service_log_add_entry.go |  8 ++++++++
 verifiable/service_map_set_value.go | 24 ++++++++++++++++++++++++
 verifiable/util_permissions.go      |  8 +++++++-
 3 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/verifiable/service_log_add_entry.go b/verifiable/service_log_add_entry.go
index e91ffaf..33c7651 100644
--- a/verifiable/service_log_add_entry.go
+++ b/verifiable/service_log_add_entry.go
@@ -37,6 +37,14 @@ func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryR
 		return nil, status.Errorf(codes.InvalidArgument, "wrong log type")
 	}
 
+	if req.Value == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "no value")
+	}
+
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.FailedPrecondition, "service is read only")
+	}
+
 	ns, err := logBucket(req.Log)
 	if err != nil {
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
diff --git a/verifiable/service_map_set_value.go b/verifiable/service_map_set_value.go
index 81ed69d..42d7fff 100644
--- a/verifiable/service_map_set_value.go
+++ b/verifiable/service_map_set_value.go
@@ -44,6 +44,21 @@ func makeJSONMutationEntry(req *pb.MapSetValueRequest) (*pb.MapMutation, error)
 	return &rv, nil
 }
 
+// validateMutation checks that a mutation is one that can be applied
+func validateMutation(mut *pb.MapMutation) error {
+	switch mut.GetAction() {
+	case "set", "update":
+		if mut.Value == nil {
+			return ErrInvalidRequest
+		}
+		return nil
+	case "delete":
+		return nil
+	default:
+		return ErrInvalidRequest
+	}
+}
+
 // MapSetValue sets a value in a map
 func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
 	_, err := s.verifyAccessForMap(ctx, req.Map, pb.Permission_PERM_MAP_SET_VALUE)
@@ -51,6 +66,15 @@ func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueR
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
 	}
 
+	err = validateMutation(req.Mutation)
+	if err != nil {
+		return nil, status.Errorf(codes.InvalidArgument, "bad mutation: %s", err)
+	}
+
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.FailedPrecondition, "service is read only")
+	}
+
 	// Since this whacks in timestamp (deliberately, so that mutation log receives unique mutations),
 	// we must keep this rather than regenerate another object.
 	mm, err := makeJSONMutationEntry(req)
diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index 2b89308..3955bd9 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -55,15 +55,21 @@ var (
 )
 
 func (s *localServiceImpl) verifyAccessForMap(ctx context.Context, vmap *pb.MapRef, perm pb.Permission) (*AccessModifier, error) {
+	if vmap.GetAccount() == nil {
+		return nil, ErrNotAuthorized
+	}
 	return s.AccessPolicy.VerifyAllowed(ctx, vmap.Account.Id, vmap.Account.ApiKey, vmap.Name, perm)
 }
 
 func (s *localServiceImpl) verifyAccessForLog(ctx context.Context, log *pb.LogRef, perm pb.Permission) (*AccessModifier, error) {
+	if log.GetAccount() == nil {
+		return nil, ErrNotAuthorized
+	}
 	return s.AccessPolicy.VerifyAllowed(ctx, log.Account.Id, log.Account.ApiKey, log.Name, perm)
 }
 
 func (s *localServiceImpl) verifyAccessForLogOperation(ctx context.Context, log *pb.LogRef, op int) (*AccessModifier, error) {
-	perm, ok := operationForLogType[log.LogType][op]
+	perm, ok := operationForLogType[log.GetLogType()][op]
 	if !ok {
 		return nil, ErrNotAuthorized
 	}
-- 
2.43.0


From a310c736a1bbf74981e58cd930f63d5d421df646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 07/32] fix: absent values stay readable when fields are
 filtered

---
 verifiable/util_permissions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index 3955bd9..2deb5db 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -81,6 +81,10 @@ func filterLeafData(ld *pb.LeafData, am *AccessModifier) (*pb.LeafData, error) {
 	if am.FieldFilter == AllFields {
 		return ld, nil
 	}
+	// Nothing there (absent map value, or mutation without a value), so nothing to filter
+	if len(ld.GetLeafInput()) == 0 && len(ld.GetExtraData()) == 0 {
+		return ld, nil
+	}
 	// Largely just for show, but saves us working on the wrong data type
 	switch ld.Format {
 	case pb.DataFormat_JSON:
-- 
2.43.0


From 8c34e1767eb1f7fbdc5ecb84fed5bdeb34eac86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 08/32] fix: map proof verifier rejects audit paths of the
 wrong length

---
 verifiable/service_map_get_value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verifiable/service_map_get_value.go b/verifiable/service_map_get_value.go
index 7a6c64c..8ec5704 100644
--- a/verifiable/service_map_get_value.go
+++ b/verifiable/service_map_get_value.go
@@ -150,11 +150,14 @@ var (
 
 // VerifyMapInclusionProof verifies an inclusion proof against a MapTreeHead
 func VerifyMapInclusionProof(self *pb.MapGetValueResponse, key []byte, head *pb.MapTreeHashResponse) error {
-	if self.TreeSize != head.MutationLog.TreeSize {
+	if head.GetMutationLog() == nil || self.TreeSize != head.MutationLog.TreeSize {
 		return ErrVerificationFailed
 	}
 
 	kp := merkle.ConstructMapKeyPath(key)
+	if len(self.AuditPath) != len(kp) {
+		return ErrVerificationFailed
+	}
 	t := merkle.LeafHash(self.Value.GetLeafInput())
 	for i := len(kp) - 1; i >= 0; i-- {
 		p := self.AuditPath[i]
-- 
2.43.0


From 5e750e75acb44a64648f371fc1b52cb5f476bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 09/32] fix: audits reject malformed answers instead of
 crashing

---
 verifiable/api_highlevel_log.go |  4 ++++
 verifiable/util_json.go         | 10 +++++-----
 verifiable/util_map_audit.go    |  9 +++++++--
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index aa791e0..d92a520 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -206,6 +206,10 @@ func (log *Log) VerifyEntries(ctx context.Context, prev *pb.LogTreeHashResponse,
 		if err != nil {
 			return err
 		}
+		// Anything of another shape does not tell us the sub-trees that prev consists of
+		if len(p.AuditPath) != len(merkle.Path(prev.TreeSize, 0, prev.TreeSize+1)) {
+			return ErrVerificationFailed
+		}
 		var firstHash []byte
 		for _, b := range p.AuditPath {
 			if firstHash == nil {
diff --git a/verifiable/util_json.go b/verifiable/util_json.go
index 8f325ca..e548744 100644
--- a/verifiable/util_json.go
+++ b/verifiable/util_json.go
@@ -116,7 +116,7 @@ func CreateJSONLeafDataFromObject(o interface{}) (*pb.LeafData, error) {
 // It ignores the format field.
 func ValidateJSONLeafData(ctx context.Context, entry *pb.LeafData) error {
 	var o interface{}
-	err := json.Unmarshal(entry.ExtraData, &o)
+	err := json.Unmarshal(entry.GetExtraData(), &o)
 	if err != nil {
 		return ErrVerificationFailed
 	}
@@ -124,7 +124,7 @@ func ValidateJSONLeafData(ctx context.Context, entry *pb.LeafData) error {
 	if err != nil {
 		return ErrVerificationFailed
 	}
-	if !bytes.Equal(entry.LeafInput, h) {
+	if !bytes.Equal(entry.GetLeafInput(), h) {
 		return ErrVerificationFailed
 	}
 	return nil
@@ -183,8 +183,8 @@ func CreateRedactableJSONLeafData(data []byte) (*pb.LeafData, error) {
 // It ignores the format field.
 func ValidateJSONLeafDataFromMutation(entry *pb.LeafData) error {
 	var o *pb.MapMutation
-	err := json.Unmarshal(entry.ExtraData, &o)
-	if err != nil {
+	err := json.Unmarshal(entry.GetExtraData(), &o)
+	if err != nil || o == nil {
 		return ErrVerificationFailed
 	}
 	if o.Value != nil {
@@ -206,7 +206,7 @@ func ValidateJSONLeafDataFromMutation(entry *pb.LeafData) error {
 	if err != nil {
 		return ErrVerificationFailed
 	}
-	if !bytes.Equal(entry.LeafInput, h) {
+	if !bytes.Equal(entry.GetLeafInput(), h) {
 		return ErrVerificationFailed
 	}
 
diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index 79a7b89..3305357 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -154,12 +154,12 @@ func addMutationToTree(root *mapAuditNode, mut *pb.MapMutation) ([]byte, error)
 
 	switch mut.Action {
 	case "set":
-		head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
+		head.LeafHash = merkle.LeafHash(mut.Value.GetLeafInput())
 	case "delete":
 		head.LeafHash = defaultLeafValues[256]
 	case "update":
 		if bytes.Equal(head.LeafHash, mut.PreviousLeafHash) {
-			head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
+			head.LeafHash = merkle.LeafHash(mut.Value.GetLeafInput())
 		}
 	default:
 		return nil, ErrVerificationFailed
@@ -304,6 +304,11 @@ func (a *auditState) CheckTreeHeadEntry(ctx context.Context, idx int64, entry *p
 		return err
 	}
 
+	// A head that covers no mutation is never logged
+	if mth.GetMutationLog().GetTreeSize() < 1 {
+		return ErrVerificationFailed
+	}
+
 	// Advance the state of the auditor to at least this size
 	err = a.ProcessUntilAtLeast(ctx, mth.MutationLog.TreeSize)
 	if err != nil {
-- 
2.43.0


From 34c6c7076c18da7540ee34242f2c41951c215ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 10/32] fix: REST update with an empty previous leaf hash stays
 an update

---
 server/httprest/server_http_handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index fc8ef01..55ba88c 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -640,6 +640,7 @@ func createLeafData(body []byte, ef int) (*pb.LeafData, error) {
 }
 
 func (as *apiServer) setMapEntry(vmap *pb.MapRef, key []byte, ef int, vars map[string]string, w http.ResponseWriter, r *http.Request) {
+	_, isUpdate := r.Header[http.CanonicalHeaderKey("X-Previous-LeafHash")]
 	prevLeafHashString := strings.TrimSpace(r.Header.Get("X-Previous-LeafHash"))
 	var prevLeafHash []byte
 	if len(prevLeafHashString) > 0 {
@@ -664,7 +665,7 @@ func (as *apiServer) setMapEntry(vmap *pb.MapRef, key []byte, ef int, vars map[s
 		return
 	}
 
-	if len(prevLeafHash) == 0 {
+	if !isUpdate {
 		as.queueMapMutation(vmap, &pb.MapMutation{
 			Action: "set",
 			Key:    key,
-- 
2.43.0


From efdf8dc68b48d1f708757b2b4de9d4816cd0f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 11/32] fix: REST client ignores negative proof indices

---
 server/httprest/client_http_rest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index dbc848e..5427b01 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -283,7 +283,7 @@ func parseHeadersForProof(headers http.Header) ([][]byte, error) {
 					if err != nil {
 						return nil, err
 					}
-					if idx < 256 {
+					if idx >= 0 && idx < 256 {
 						prv[idx] = bs
 					}
 				}
-- 
2.43.0


From 47561495c7ca02e1a00dffd93e8cea3ac9188cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 12/32] fix: inclusion proof for an unknown leaf hash is a not
 found error

---
 verifiable/service_log_inclusion_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index abb7716..5d42382 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -74,6 +74,9 @@ func (s *localServiceImpl) LogInclusionProof(ctx context.Context, req *pb.LogInc
 		} else {
 			// Then we must fetch the index
 			ei, err := lookupIndexByLeafHash(ctx, kr, req.Log.LogType, req.MtlHash)
+			if err == ErrNoSuchKey {
+				return status.Errorf(codes.NotFound, "cannot find it")
+			}
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 226d01044f985a5773a5d70d83b666c062f77d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 13/32] fix: verified tree head accepts growth from an empty
 log

---
 verifiable/api_highlevel_log.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index d92a520..0be1eff 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -150,7 +150,8 @@ func (log *Log) VerifiedTreeHead(ctx context.Context, prev *pb.LogTreeHashRespon
 		return nil, err
 	}
 
-	if prev != nil {
+	// (any head is consistent with that of an empty log)
+	if prev != nil && prev.TreeSize > 0 {
 		err = log.VerifyConsistency(ctx, prev, head)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 18a628f6ebc76e2c8803e7262e406fc37e1a5e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 14/32] fix: proof verifiers terminate for tree sizes of 2^62
 and more

---
 merkle/util_merkle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkle/util_merkle.go b/merkle/util_merkle.go
index 90e91bc..7931934 100644
--- a/merkle/util_merkle.go
+++ b/merkle/util_merkle.go
@@ -75,7 +75,7 @@ func IsPow2(n int64) bool {
 // CalcK returns the largest value that is a power of 2, less than n
 func CalcK(n int64) int64 {
 	k := int64(1)
-	for (k << 1) < n {
+	for k < 1<<62 && (k<<1) < n { // above that, doubling would overflow and never end
 		k <<= 1
 	}
 	return k
-- 
2.43.0


From a20e51b81efa90651c41b2cd23ef06c5c0e90eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 15/32] fix: redactable entries of documents with redacted
 fields validate

---
 server/httprest/server_http_handler.go | 2 +-
 verifiable/util_json.go                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index 55ba88c..f61cb0c 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -618,7 +618,7 @@ func createLeafData(body []byte, ef int) (*pb.LeafData, error) {
 		if err != nil {
 			return nil, verifiable.ErrInvalidRequest
 		}
-		oh, err := objecthash.ObjectHash(redactable)
+		oh, err := objecthash.ObjectHashWithStdRedaction(redactable)
 		if err != nil {
 			return nil, verifiable.ErrInvalidRequest
 		}
diff --git a/verifiable/util_json.go b/verifiable/util_json.go
index e548744..a1de5f1 100644
--- a/verifiable/util_json.go
+++ b/verifiable/util_json.go
@@ -166,7 +166,7 @@ func CreateRedactableJSONLeafData(data []byte) (*pb.LeafData, error) {
 		return nil, err
 	}
 
-	bflh, err := objecthash.ObjectHash(o)
+	bflh, err := objecthash.ObjectHashWithStdRedaction(o)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1a0901169b43604c8a881b778a6b0f369363c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 16/32] fix: REST refuses requests with missing parts

---
 server/httprest/client_http_rest.go    | 8 +++++++-
 server/httprest/server_http_handler.go | 7 +++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index 5427b01..2141d6b 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -67,6 +67,9 @@ func (c *Client) MustDial() pb.VerifiableDataStructuresServiceServer {
 type httpRestImpl Client
 
 func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+	if log.GetAccount() == nil {
+		return nil, nil, verifiable.ErrInvalidRequest
+	}
 	prefix := ""
 	switch log.LogType {
 	case pb.LogType_STRUCT_TYPE_LOG:
@@ -82,6 +85,9 @@ func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data
 }
 
 func (c *httpRestImpl) makeMapRequest(vmap *pb.MapRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+	if vmap.GetAccount() == nil {
+		return nil, nil, verifiable.ErrInvalidRequest
+	}
 	return c.makeRequest(vmap.Account, method, fmt.Sprintf("/account/%s/map/%s", vmap.Account.Id, vmap.Name)+path, data, headers)
 }
 
@@ -218,7 +224,7 @@ func (c *httpRestImpl) LogConsistencyProof(ctx context.Context, req *pb.LogConsi
 
 // MapSetValue sets a value in the map
 func (c *httpRestImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
-	switch req.Mutation.Action {
+	switch req.Mutation.GetAction() {
 	case "delete":
 		contents, _, err := c.makeMapRequest(req.Map, "DELETE", "/key/h/"+hex.EncodeToString(req.Mutation.Key), nil, nil)
 		if err != nil {
diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index f61cb0c..4534aea 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -628,12 +628,15 @@ func createLeafData(body []byte, ef int) (*pb.LeafData, error) {
 		}
 		return &pb.LeafData{LeafInput: oh, ExtraData: rb, Format: pb.DataFormat_JSON}, nil
 	case extraEntry:
-		var req pb.LeafData
+		var req *pb.LeafData
 		err := json.Unmarshal(body, &req)
 		if err != nil {
 			return nil, err
 		}
-		return &req, nil
+		if req == nil { // the body was "null", this is how our client sends a missing value
+			return nil, verifiable.ErrInvalidRequest
+		}
+		return req, nil
 	default:
 		return nil, verifiable.ErrInvalidRequest
 	}
-- 
2.43.0


From 9b17a86e08ccb0ad7d8b4307fe3e06b2faebf888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 17/32] fix: badger updates of a namespace take place one at a
 time

---
 storage/badger/storage_badger.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index 0e2a117..141a559 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -36,7 +36,14 @@ type Storage struct {
 	Path string
 
 	dbLock sync.RWMutex
-	dbs    map[string]*badger.DB
+	dbs    map[string]*namespaceDB
+}
+
+type namespaceDB struct {
+	*badger.DB
+
+	// updateLock is held by the one update that may take place at a time
+	updateLock sync.Mutex
 }
 
 // Close calls the underlying Close method on the BoltDBs which releases file locks.
@@ -51,7 +58,7 @@ func (bbs *Storage) Close() {
 }
 
 // Returns nil if not found
-func (bbs *Storage) getDB(key string) *badger.DB {
+func (bbs *Storage) getDB(key string) *namespaceDB {
 	bbs.dbLock.RLock()
 	defer bbs.dbLock.RUnlock()
 
@@ -68,7 +75,7 @@ func (bbs *Storage) getDB(key string) *badger.DB {
 }
 
 // getOrCreateDB gets and/or creates DB
-func (bbs *Storage) getOrCreateDB(ns []byte) (*badger.DB, error) {
+func (bbs *Storage) getOrCreateDB(ns []byte) (*namespaceDB, error) {
 	key := hex.EncodeToString(ns)
 
 	// First try with simple read lock
@@ -82,7 +89,7 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*badger.DB, error) {
 	defer bbs.dbLock.Unlock()
 
 	if bbs.dbs == nil {
-		bbs.dbs = make(map[string]*badger.DB)
+		bbs.dbs = make(map[string]*namespaceDB)
 	}
 
 	// Check again, as may have been added since last
@@ -96,9 +103,10 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*badger.DB, error) {
 	if err != nil {
 		return nil, err
 	}
-	bbs.dbs[key] = db
+	rv = &namespaceDB{DB: db}
+	bbs.dbs[key] = rv
 
-	return db, nil
+	return rv, nil
 }
 
 // ExecuteReadOnly executes a read only query
@@ -112,12 +120,14 @@ func (bbs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 	})
 }
 
-// ExecuteUpdate executes an update query
+// ExecuteUpdate executes an update query. Only one of these executes per-namespace at once.
 func (bbs *Storage) ExecuteUpdate(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
 	db, err := bbs.getOrCreateDB(namespace)
 	if err != nil {
 		return err
 	}
+	db.updateLock.Lock()
+	defer db.updateLock.Unlock()
 	return db.Update(func(tx *badger.Txn) error {
 		return f(ctx, &badgerReaderWriter{Tx: tx})
 	})
-- 
2.43.0


From 7d0fff022c74bb80e4b524229d6a724d80b03fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 18/32] fix: postgres transactions take turns on the one
 connection

---
 storage/postgres/storage-postgres.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 908a9a1..3571d12 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -18,6 +18,9 @@ import (
 type Storage struct {
 	Pool *pgxpool.Conn
 
+	// connMutex is held by whoever uses the connection, as it can have but one transaction at a time
+	connMutex sync.Mutex
+
 	knownTableMutex sync.RWMutex
 	knownTables     map[string]string
 }
@@ -60,7 +63,7 @@ func (t *txWriter) Set(ctx context.Context, key []byte, value proto.Message) err
 	return err
 }
 
-// returns appropriate tablename for namespace
+// returns appropriate tablename for namespace. Caller must hold connMutex.
 func (pgs *Storage) getOrCreateNS(ctx context.Context, namespace []byte) (string, error) {
 	key := string(namespace)
 
@@ -112,6 +115,9 @@ func (pgs *Storage) getOrCreateNS(ctx context.Context, namespace []byte) (string
 // ExecuteReadOnly executes a read only query. Note this will have the side-effect of
 // creating a table for this namespace, if it doesn't already exist.
 func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
+	pgs.connMutex.Lock()
+	defer pgs.connMutex.Unlock()
+
 	tableName, err := pgs.getOrCreateNS(ctx, namespace)
 	if err != nil {
 		return err
@@ -132,6 +138,9 @@ func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 // ExecuteUpdate executes an update query. Only one of these can execute per-namespace
 // at once, and this is enforced by a full table lock.
 func (pgs *Storage) ExecuteUpdate(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
+	pgs.connMutex.Lock()
+	defer pgs.connMutex.Unlock()
+
 	tableName, err := pgs.getOrCreateNS(ctx, namespace)
 	if err != nil {
 		return err
-- 
2.43.0


From 4a46b7ba09256b1aeac1564d872c05d1db7625e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 19/32] fix: postgres readers keep one view of a namespace

---
 storage/postgres/storage-postgres.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 3571d12..0d1c5a0 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -123,7 +123,8 @@ func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 		return err
 	}
 
-	tx, err := pgs.Pool.Begin(ctx)
+	// All reads must see the same state, even if an update is committed elsewhere in between
+	tx, err := pgs.Pool.BeginTx(ctx, pgx.TxOptions{IsoLevel: pgx.RepeatableRead, AccessMode: pgx.ReadOnly})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 41bb41e7d7f6278de46b16c01334e1404aac07ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:03 +0000
Subject: [PATCH 20/32] fix: REST answers refused bodies, keys and headers as
 invalid requests

---
 server/httprest/server_http_handler.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index 4534aea..098e4ac 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -284,6 +284,15 @@ func writeResponseHeader(logger *log.Logger, w http.ResponseWriter, err error) {
 		logger.Println(err.Error())
 	}
 
+	switch err {
+	case verifiable.ErrInvalidRequest:
+		w.WriteHeader(http.StatusBadRequest)
+		return
+	case verifiable.ErrNotFound:
+		w.WriteHeader(http.StatusNotFound)
+		return
+	}
+
 	s, ok := status.FromError(err)
 	if !ok {
 		w.WriteHeader(http.StatusInternalServerError)
-- 
2.43.0


From cdb4190e8366f0a97c26bc0da27fa65ef015b845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 21/32] fix: badger stores can be opened again after a stop in
 the midst of a write

---
 storage/badger/storage_badger.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index 141a559..fed5ce6 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -98,8 +98,9 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*namespaceDB, error) {
 		return rv, nil
 	}
 
-	// Get or create on disk
-	db, err := badger.Open(badger.DefaultOptions(filepath.Join(bbs.Path, key)))
+	// Get or create on disk. If we were stopped while writing, then the value log ends with a part of
+	// a transaction that was never committed. It has to be cut off, else the database can't be opened again.
+	db, err := badger.Open(badger.DefaultOptions(filepath.Join(bbs.Path, key)).WithTruncate(true))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 007a0a2f0a27e3614863af8f1f4392b4cb664ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 22/32] fix: JavaScript client refuses proofs that it cannot
 follow

---
 assets/static/continusec.js | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index ca09554..b76afc0 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1019,14 +1019,14 @@ LogConsistencyProof.prototype.verify = function (first, second) {
     }
 
     if (newProof.length === 0) {
-        return false;
+        throw CONTINUSEC_VERIFICATION_ERROR;
     }
 
     var fr = newProof[0];
     var sr = newProof[0];
     for (i = 1; i < newProof.length; i++) {
         if (sn === 0) {
-            return false;
+            throw CONTINUSEC_VERIFICATION_ERROR;
         }
         if (((fn & 1) == 1) || (fn == sn)) {
             fr = nodeMerkleTreeHash(newProof[i], fr);
@@ -1108,7 +1108,7 @@ LogInclusionProof.prototype.verify = function (head) {
 	}
 
     if ((this.leafIndex >= this.treeSize) || (this.leafIndex < 0)) {
-        return false;
+        throw CONTINUSEC_VERIFICATION_ERROR;
     }
 
     var fn = this.leafIndex;
@@ -1116,6 +1116,9 @@ LogInclusionProof.prototype.verify = function (head) {
     var r = this.leafHash;
 
     for (var i = 0; i < this.auditPath.length; i++) {
+        if (sn === 0) {
+            throw CONTINUSEC_VERIFICATION_ERROR;
+        }
         if ((fn == sn) || ((fn & 1) == 1)) {
             r = nodeMerkleTreeHash(this.auditPath[i], r);
             while (!((fn === 0) || ((fn & 1) == 1))) {
-- 
2.43.0


From e80358eaed8226a4b01ee78e2c9baaf858473aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 23/32] fix: JavaScript client reads audit paths as the server
 sends them

---
 assets/static/continusec.js | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index b76afc0..15eaf38 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -674,8 +674,9 @@ VerifiableLog.prototype.getInclusionProof = function (treeSize, leaf, success, f
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize + "/inclusion/h/" + hexString(lh), null, function (data, req) {
         var obj = JSON.parse(data);
         var auditPath = [];
-        for (var i = 0; i < obj.audit_path.length; i++) {
-            auditPath.push(atob(obj.audit_path[i]));
+        var path = obj.audit_path || []; // left out by the server when empty
+        for (var i = 0; i < path.length; i++) {
+            auditPath.push(atob(path[i]));
         }
         success(new LogInclusionProof(lh, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), auditPath));
     }, function (reason) {
@@ -695,8 +696,9 @@ VerifiableLog.prototype.getInclusionProofByIndex = function (treeSize, leafIndex
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize + "/inclusion/" + leafIndex, null, function (data, req) {
         var obj = JSON.parse(data);
         var auditPath = [];
-        for (var i = 0; i < obj.proof.length; i++) {
-            auditPath.push(atob(obj.proof[i]));
+        var path = obj.audit_path || []; // left out by the server when empty
+        for (var i = 0; i < path.length; i++) {
+            auditPath.push(atob(path[i]));
         }
         success(new LogInclusionProof(null, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), auditPath));
     }, function (reason) {
@@ -737,8 +739,9 @@ VerifiableLog.prototype.getConsistencyProof = function (firstSize, secondSize, s
     this.client.makeRequest("GET", this.path + "/tree/" + secondSize + "/consistency/" + firstSize, null, function (data, req) {
         var obj = JSON.parse(data);
         var auditPath = [];
-        for (var i = 0; i < obj.audit_path.length; i++) {
-            auditPath.push(atob(obj.audit_path[i]));
+        var path = obj.audit_path || []; // left out by the server when empty
+        for (var i = 0; i < path.length; i++) {
+            auditPath.push(atob(path[i]));
         }
         success(new LogConsistencyProof(protoNumber(obj.from_size), protoNumber(obj.tree_size), auditPath));
     }, function (reason) {
-- 
2.43.0


From 89c163b9fa5a9f2bb45f2b16445d36c5b1d90361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 24/32] fix: JavaScript client accepts heads without a root
 hash

---
 assets/static/continusec.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 15eaf38..f7af6ce 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -395,7 +395,7 @@ VerifiableMap.prototype.deleteValue = function (key, success, failure) {
 VerifiableMap.prototype.getTreeHead = function (treeSize, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize, null, function (data, req) {
         var obj = JSON.parse(data);
-        success(new MapTreeHead(new LogTreeHead(protoNumber(obj.mutation_log.tree_size), atob(obj.mutation_log.root_hash)), atob(obj.root_hash)));
+        success(new MapTreeHead(new LogTreeHead(protoNumber(obj.mutation_log.tree_size), obj.mutation_log.root_hash == null ? null : atob(obj.mutation_log.root_hash)), atob(obj.root_hash)));
     }, function (reason) {
         failure(reason);
     });
@@ -533,7 +533,7 @@ VerifiableLog.prototype.add = function (value, success, failure) {
 VerifiableLog.prototype.getTreeHead = function (treeSize, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize, null, function (data, req) {
         var obj = JSON.parse(data);
-        success(new LogTreeHead(protoNumber(obj.tree_size), obj.root_hash === null ? null : atob(obj.root_hash)));
+        success(new LogTreeHead(protoNumber(obj.tree_size), obj.root_hash == null ? null : atob(obj.root_hash)));
     }, function (reason) {
         failure(reason);
     });
-- 
2.43.0


From f2dbd3644f409f2fddb91a68199101e007a14489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 25/32] fix: JavaScript client decodes single entries

---
 assets/static/continusec.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index f7af6ce..e1de7a1 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -549,7 +549,7 @@ VerifiableLog.prototype.getTreeHead = function (treeSize, success, failure) {
  */
 VerifiableLog.prototype.getEntry = function (idx, factory, success, failure) {
     this.client.makeRequest("GET", this.path + "/entry/" + idx + "/extra", null, function (data, req) {
-        success(factory.createFromLeafData(data, idx));
+        success(factory.createFromLeafData(JSON.parse(data), idx));
     }, function (reason) {
         failure(reason);
     });
-- 
2.43.0


From 59ed40c34f806b18a19ea1fed27122b790c18a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 26/32] fix: JavaScript client tells callers that lack a key
 that they are unauthorized

---
 assets/static/continusec.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index e1de7a1..df11211 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -144,6 +144,7 @@ ContinusecClient.prototype.makeRequest = function (method, path, data, success,
         case 400:
             failure(CONTINUSEC_INVALID_RANGE_ERROR);
             break;
+        case 401:
         case 403:
             failure(CONTINUSEC_UNAUTHORIZED_ERROR);
             break;
-- 
2.43.0


From b118f3c8bb586ef137777cf0652f349bee4afe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 27/32] fix: JavaScript client verifies proofs for trees of
 2^31 entries and more

---
 assets/static/continusec.js | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index df11211..6299326 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -638,7 +638,7 @@ function secondStageVerifyEntries(stack, log, prev, head, factory, each, success
         each(idx, entry);
 
         stack.push(entry.getLeafHash());
-        for (var z = idx; (z & 1) == 1; z >>= 1) {
+        for (var z = idx; (z & 1) == 1; z = Math.floor(z / 2)) {
             var right = stack.pop();
             var left = stack.pop();
             stack.push(nodeMerkleTreeHash(left, right));
@@ -1018,8 +1018,8 @@ LogConsistencyProof.prototype.verify = function (first, second) {
     var fn = this.firstSize - 1;
     var sn = this.secondSize - 1;
     while ((fn & 1) == 1) {
-        fn >>= 1;
-        sn >>= 1;
+        fn = Math.floor(fn / 2);
+        sn = Math.floor(sn / 2);
     }
 
     if (newProof.length === 0) {
@@ -1036,14 +1036,14 @@ LogConsistencyProof.prototype.verify = function (first, second) {
             fr = nodeMerkleTreeHash(newProof[i], fr);
             sr = nodeMerkleTreeHash(newProof[i], sr);
             while (!((fn === 0) || ((fn & 1) == 1))) {
-                fn >>= 1;
-                sn >>= 1;
+                fn = Math.floor(fn / 2);
+                sn = Math.floor(sn / 2);
             }
         } else {
             sr = nodeMerkleTreeHash(sr, newProof[i]);
         }
-        fn >>= 1;
-        sn >>= 1;
+        fn = Math.floor(fn / 2);
+        sn = Math.floor(sn / 2);
     }
 
     if (sn != 0) {
@@ -1126,14 +1126,14 @@ LogInclusionProof.prototype.verify = function (head) {
         if ((fn == sn) || ((fn & 1) == 1)) {
             r = nodeMerkleTreeHash(this.auditPath[i], r);
             while (!((fn === 0) || ((fn & 1) == 1))) {
-                fn >>= 1;
-                sn >>= 1;
+                fn = Math.floor(fn / 2);
+                sn = Math.floor(sn / 2);
             }
         } else {
             r = nodeMerkleTreeHash(r, this.auditPath[i]);
         }
-        fn >>= 1;
-        sn >>= 1;
+        fn = Math.floor(fn / 2);
+        sn = Math.floor(sn / 2);
     }
 
     if (sn != 0) {
-- 
2.43.0


From c4757741640970678712bf7cb785d05d4d23107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 28/32] fix: JavaScript client can follow a log from its empty
 head

---
 assets/static/continusec.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 6299326..01270ae 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -830,7 +830,7 @@ VerifiableLog.prototype.getVerifiedTreeHead = function (prev, treeSize, success,
     } else {
         var log = this;
         this.getTreeHead(treeSize, function (head) {
-            if (prev == null) {
+            if ((prev == null) || (prev.getTreeSize() == 0)) {
                 success(head);
             } else {
                 log.verifyConsistency(prev, head, function () {
-- 
2.43.0


From 692122f2019eee72888add74a4eba2c8b02ae514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 29/32] fix: JavaScript client decodes JSON entries as UTF-8

---
 assets/static/continusec.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 01270ae..822112f 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1268,7 +1268,7 @@ JsonEntryFactory.prototype.getFormat = function () { return "/xjson"; };
  * @param {string} bytes the bytes as returned by the server.
  * @return {JsonEntry} the new entry.
  */
-JsonEntryFactory.prototype.createFromLeafData = function (b) { return new JsonEntry(b.extra_data == undefined ? "" : atob(b.extra_data)); };
+JsonEntryFactory.prototype.createFromLeafData = function (b) { return new JsonEntry(b.extra_data == undefined ? "" : decodeURIComponent(escape(atob(b.extra_data)))); };
 
 /**
  * Singleton instance of JsonEntryFactory ready for your use.
@@ -1295,7 +1295,7 @@ RedactedJsonEntryFactory.prototype.getFormat = function () { return "/xjson"; };
  * @param {string} bytes the bytes as returned by the server.
  * @return {RedactedJsonEntry} the new entry.
  */
-RedactedJsonEntryFactory.prototype.createFromLeafData = function (b) { return new RedactedJsonEntry(atob(b.extra_data)); };
+RedactedJsonEntryFactory.prototype.createFromLeafData = function (b) { return new RedactedJsonEntry(b.extra_data == undefined ? "" : decodeURIComponent(escape(atob(b.extra_data)))); };
 
 /**
  * Singleton instance of RedactedJsonEntryFactory ready for your use.
-- 
2.43.0


From 173167cba46a856520c8a0b40078936af2b15e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:34 +0000
Subject: [PATCH 30/32] fix: JavaScript client uploads raw entries byte for
 byte

---
 assets/static/continusec.js | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 822112f..4fc02a4 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1329,7 +1329,14 @@ RawDataEntry.prototype.getFormat = function () {
  * @return {string} the data
  */
 RawDataEntry.prototype.getDataForUpload = function () {
-	return this.data;
+	var rv = new Uint8Array(this.data.length); // a string would be sent as UTF-8
+	for (var i = 0; i < this.data.length; i++) {
+		if (this.data.charCodeAt(i) > 255) {
+			return this.data; // not bytes
+		}
+		rv[i] = this.data.charCodeAt(i);
+	}
+	return rv;
 }
 
 /**
-- 
2.43.0


From 9611c1e97d942987e60d1763c17a49f9d757f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:34 +0000
Subject: [PATCH 31/32] fix: JavaScript client waits for entries that the
 server cannot find yet

---
 assets/static/continusec.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 4fc02a4..fe0a6e8 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -885,7 +885,7 @@ function doBlockRound(log, lastHead, secsToSleep, leaf, success, failure) {
             log.verifyInclusion(lth, leaf, function () {
                 success(lth);
             }, function (reason) {
-                if (reason == CONTINUSEC_INVALID_RANGE_ERROR) {
+                if ((reason == CONTINUSEC_INVALID_RANGE_ERROR) || (reason == CONTINUSEC_NOT_FOUND_ERROR)) {
                     secsToSleep = 1;
                     setTimeout(function () { doBlockRound(log, lth.getTreeSize(), secsToSleep, leaf, success, failure); }, secsToSleep * 1000);
                 } else {
-- 
2.43.0


From 6a5652ee4556cd2b3ff0f50c3bc4bea4eaae4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:12 +0000
Subject: [PATCH 32/32] fix: JavaScript client can wait for the first entry of
 a log

---
 assets/static/continusec.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index fe0a6e8..e68a4d3 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -715,6 +715,10 @@ VerifiableLog.prototype.getInclusionProofByIndex = function (treeSize, leafIndex
  * @param {failureCallback} failure called on failure
  */
 VerifiableLog.prototype.verifyInclusion = function (head, leaf, success, failure) {
+	if (head.getTreeSize() == 0) { // empty, and 0 would ask for the latest tree
+		failure(CONTINUSEC_NOT_FOUND_ERROR);
+		return;
+	}
 	this.getInclusionProof(head.getTreeSize(), leaf, function (proof) {
 		try {
 			proof.verify(head);
-- 
2.43.0

