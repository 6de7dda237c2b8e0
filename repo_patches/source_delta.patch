From 1e534c31c31cbe980cdb41b0dbef36829fd30e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 01/55] fix: keep cached messages of different senders apart
 when popping a work's messages

---
 core/cache/message_cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cache/message_cache.go b/core/cache/message_cache.go
index 490c221..e8a091a 100644
--- a/core/cache/message_cache.go
+++ b/core/cache/message_cache.go
@@ -60,13 +60,13 @@ func (c *MessageCache) getAllMessages(workId string, update bool, filter map[com
 	defer c.cacheLock.Unlock()
 
 	result := make([]*commonTypes.TssMessage, 0)
-	newList := make([]*commonTypes.TssMessage, 0)
 
 	for _, value := range c.cache {
 		if value == nil {
 			continue
 		}
 
+		newList := make([]*commonTypes.TssMessage, 0)
 		for _, msg := range value.msgs {
 			if msg.WorkId == workId && (filter == nil || filter[msg.Type]) {
 				result = append(result, msg)
-- 
2.43.0


From 7ddeb2709d67e4ffeed94c975e1546c5c169cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 02/55] fix: release the presign lock when another request
 consumed the presigns first

---
 core/components/available_presign_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/components/available_presign_manager.go b/core/components/available_presign_manager.go
index d34f0af..895d8d1 100644
--- a/core/components/available_presign_manager.go
+++ b/core/components/available_presign_manager.go
@@ -142,6 +142,7 @@ func (m *defaultAvailablePresigns) GetAvailablePresigns(batchSize int, n int, al
 				delete(m.available, selectedPidstring)
 			}
 		} else {
+			m.lock.Unlock()
 			return []string{}, []*tss.PartyID{}
 		}
 	}
-- 
2.43.0


From 87ffb6bf8dba11ab8bdcde04747f9024d1737808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 03/55] fix: do not drop the newer item of a key when its older
 duplicate leaves the circular queue

---
 tools/circular_queue.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/circular_queue.go b/tools/circular_queue.go
index 006be56..ec2d368 100644
--- a/tools/circular_queue.go
+++ b/tools/circular_queue.go
@@ -44,7 +44,11 @@ func (q *defaultCircularQueue) Add(key string, T any) {
 
 	// Remove old item from the map. The item in the queue will be overwritten.
 	if q.tail-q.head >= q.size {
-		delete(q.m, q.queue[q.head%q.size].key)
+		oldest := q.queue[q.head%q.size]
+		// The key could have been added again since then. Keep the newer item in that case.
+		if q.m[oldest.key] == oldest {
+			delete(q.m, oldest.key)
+		}
 		q.head++
 	}
 
-- 
2.43.0


From f7ab0a5dca820bc74585d3031c3d2678da1c3ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 04/55] fix: return an error instead of panicking when
 decrypting data shorter than a nonce

---
 store/store.go  | 5 +++++
 utils/crypto.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/store/store.go b/store/store.go
index 4a97b4a..6af2111 100644
--- a/store/store.go
+++ b/store/store.go
@@ -4,6 +4,7 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"fmt"
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/iterator"
@@ -76,6 +77,10 @@ func (s *DefaultStore) GetEncrypted(key []byte) (value []byte, err error) {
 		return nil, err
 	}
 
+	if len(encryptedValue) < gcm.NonceSize() {
+		return nil, fmt.Errorf("encrypted value is too short: %d bytes", len(encryptedValue))
+	}
+
 	nonce, ciphertext := encryptedValue[:gcm.NonceSize()], encryptedValue[gcm.NonceSize():]
 	data, err := gcm.Open(nil, nonce, ciphertext, nil)
 
diff --git a/utils/crypto.go b/utils/crypto.go
index 656fdc5..25bd0fa 100644
--- a/utils/crypto.go
+++ b/utils/crypto.go
@@ -26,6 +26,10 @@ func AESDecrypt(encrypted []byte, key []byte) ([]byte, error) {
 	}
 
 	nonceSize := gcm.NonceSize()
+	if len(encrypted) < nonceSize {
+		return nil, fmt.Errorf("encrypted data is too short: %d bytes", len(encrypted))
+	}
+
 	nonce, encrypted := encrypted[:nonceSize], encrypted[nonceSize:]
 	decrypted, err := gcm.Open(nil, nonce, encrypted, nil)
 
-- 
2.43.0


From 50e7ccf5350b9e646859e8a89c1589520b6d5e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 05/55] fix: return an error instead of panicking on an
 unsupported public key type

---
 utils/crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/crypto.go b/utils/crypto.go
index 25bd0fa..9cfbe10 100644
--- a/utils/crypto.go
+++ b/utils/crypto.go
@@ -80,7 +80,7 @@ func GetCosmosPubKey(keyType string, keyBytes []byte) (ctypes.PubKey, error) {
 		pubKey = &secp256k1.PubKey{Key: keyBytes}
 
 	default:
-		err := fmt.Errorf("Unsupported pub key type %s", pubKey.Type())
+		err := fmt.Errorf("Unsupported pub key type %s", keyType)
 		log.Error(err)
 		return nil, err
 	}
-- 
2.43.0


From 73af55ad952d006d9a5c44271108fbf5bf56675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 06/55] fix: save the peers' values and load their key types

---
 db/database.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/db/database.go b/db/database.go
index d9b3156..814217c 100644
--- a/db/database.go
+++ b/db/database.go
@@ -529,10 +529,19 @@ func (d *SqlDatabase) UpdatePresignStatus(presignIds []string) error {
 }
 
 func (d *SqlDatabase) SavePeers(peers []*p2ptypes.Peer) error {
+	if len(peers) == 0 {
+		return nil
+	}
+
 	query := "INSERT INTO peers (`address`, pubkey, pubkey_type) VALUES "
 	query = query + getQueryQuestionMark(len(peers), 3)
 
-	_, err := d.db.Exec(query)
+	params := make([]interface{}, 0, len(peers)*3)
+	for _, peer := range peers {
+		params = append(params, peer.Address, peer.PubKey, peer.PubKeyType)
+	}
+
+	_, err := d.db.Exec(query, params...)
 	if err != nil {
 		return err
 	}
@@ -562,7 +571,7 @@ func (d *SqlDatabase) LoadPeers() []*p2ptypes.Peer {
 		peer := &p2ptypes.Peer{
 			Address:    nullableAddress.String,
 			PubKey:     nullablePubkey.String,
-			PubKeyType: nullablePubkey.String,
+			PubKeyType: nullableKeytype.String,
 		}
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From 5b8cb580dcc82759bef9efe04254adebbd61bd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 07/55] fix: load presigns in the order of the requested ids

---
 db/database.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/db/database.go b/db/database.go
index 814217c..04ee4f8 100644
--- a/db/database.go
+++ b/db/database.go
@@ -445,7 +445,7 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 	// 1. Construct the query
 	questions := getQueryQuestionMark(1, len(presignIds))
 
-	query := "SELECT presign_output FROM presign WHERE presign_id IN " + questions + " ORDER BY created_time DESC"
+	query := "SELECT presign_id, presign_output FROM presign WHERE presign_id IN " + questions
 
 	// Execute the query
 	interfaceArr := make([]interface{}, len(presignIds))
@@ -459,11 +459,12 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 	}
 	defer rows.Close()
 
-	// 2. Scan every rows and save it to loaded array
-	results := make([]*ecsigning.SignatureData_OneRoundData, 0)
+	// 2. Scan every rows and save it to loaded map
+	loaded := make(map[string]*ecsigning.SignatureData_OneRoundData)
 	for rows.Next() {
+		var presignId string
 		var bz []byte
-		if err := rows.Scan(&bz); err != nil {
+		if err := rows.Scan(&presignId, &bz); err != nil {
 			log.Error("Cannot unmarshall data", err)
 			return nil, err
 		}
@@ -474,7 +475,16 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 			return nil, err
 		}
 
-		results = append(results, &data)
+		loaded[presignId] = &data
+	}
+
+	// 3. Return the data in the same order as the ids.
+	results := make([]*ecsigning.SignatureData_OneRoundData, len(presignIds))
+	for i, presignId := range presignIds {
+		if loaded[presignId] == nil {
+			return nil, fmt.Errorf("presign %s: %w", presignId, ErrNotFound)
+		}
+		results[i] = loaded[presignId]
 	}
 
 	return results, nil
@@ -483,7 +493,7 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 	questions := getQueryQuestionMark(1, len(presignIds))
 
-	query := "SELECT status FROM presign WHERE presign_id IN " + questions + " ORDER BY created_time DESC"
+	query := "SELECT presign_id, status FROM presign WHERE presign_id IN " + questions
 
 	// Execute the query
 	interfaceArr := make([]interface{}, len(presignIds))
@@ -497,15 +507,25 @@ func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 	}
 	defer rows.Close()
 
-	// 2. Scan every rows and save it to loaded array
-	results := make([]string, 0)
+	// 2. Scan every rows and save it to loaded map
+	loaded := make(map[string]string)
 	for rows.Next() {
-		var status string
-		if err := rows.Scan(&status); err != nil {
+		var presignId, status string
+		if err := rows.Scan(&presignId, &status); err != nil {
 			log.Error("Cannot load status", err)
 			return nil, err
 		}
-		results = append(results, status)
+		loaded[presignId] = status
+	}
+
+	// 3. Return the statuses in the same order as the ids.
+	results := make([]string, len(presignIds))
+	for i, presignId := range presignIds {
+		status, ok := loaded[presignId]
+		if !ok {
+			return nil, fmt.Errorf("presign %s: %w", presignId, ErrNotFound)
+		}
+		results[i] = status
 	}
 
 	return results, nil
-- 
2.43.0


From eeae10b578bcc4587241e586100edc0e63b52b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 08/55] fix: keep one connection to the in-memory database so
 that its data stays

---
 db/database.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/db/database.go b/db/database.go
index 04ee4f8..29b5650 100644
--- a/db/database.go
+++ b/db/database.go
@@ -135,10 +135,16 @@ func (d *SqlDatabase) Connect() error {
 	}
 
 	d.db = database
-	database.SetMaxIdleConns(5)
-	database.SetMaxOpenConns(10)
-	database.SetConnMaxIdleTime(5 * time.Second)
-	database.SetConnMaxLifetime(30 * time.Second)
+	if d.config.InMemory {
+		// Every sqlite3 connection to ":memory:" opens a database of its own and its data is gone when
+		// the connection is closed. Always use a single connection and never close it.
+		database.SetMaxOpenConns(1)
+	} else {
+		database.SetMaxIdleConns(5)
+		database.SetMaxOpenConns(10)
+		database.SetConnMaxIdleTime(5 * time.Second)
+		database.SetConnMaxLifetime(30 * time.Second)
+	}
 
 	log.Info("Db is connected successfully")
 	return nil
-- 
2.43.0


From f72d816ee53ed11fd5231e2906dfa84e3a0f40c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 09/55] fix: report a failed sql migration

---
 db/database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/db/database.go b/db/database.go
index 29b5650..6d76388 100644
--- a/db/database.go
+++ b/db/database.go
@@ -176,7 +176,9 @@ func (d *SqlDatabase) doSqlMigration() error {
 	}
 
 	m.Log = &dbLogger{}
-	m.Up()
+	if err := m.Up(); err != nil && err != migrate.ErrNoChange {
+		return err
+	}
 
 	return nil
 }
-- 
2.43.0


From b34131bdb6de4bf6ade7abd431e6e32e944c747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 10/55] fix: identify a presign by its id so that a batch of
 presigns can be saved

---
 db/migrations/005_create_presign_by_id_table.down.sql | 1 +
 db/migrations/005_create_presign_by_id_table.up.sql   | 9 +++++++++
 db/migrations/006_copy_presign_table.down.sql         | 1 +
 db/migrations/006_copy_presign_table.up.sql           | 2 ++
 db/migrations/007_drop_presign_table.down.sql         | 9 +++++++++
 db/migrations/007_drop_presign_table.up.sql           | 1 +
 db/migrations/008_rename_presign_by_id_table.down.sql | 1 +
 db/migrations/008_rename_presign_by_id_table.up.sql   | 1 +
 8 files changed, 25 insertions(+)
 create mode 100644 db/migrations/005_create_presign_by_id_table.down.sql
 create mode 100644 db/migrations/005_create_presign_by_id_table.up.sql
 create mode 100644 db/migrations/006_copy_presign_table.down.sql
 create mode 100644 db/migrations/006_copy_presign_table.up.sql
 create mode 100644 db/migrations/007_drop_presign_table.down.sql
 create mode 100644 db/migrations/007_drop_presign_table.up.sql
 create mode 100644 db/migrations/008_rename_presign_by_id_table.down.sql
 create mode 100644 db/migrations/008_rename_presign_by_id_table.up.sql

diff --git a/db/migrations/005_create_presign_by_id_table.down.sql b/db/migrations/005_create_presign_by_id_table.down.sql
new file mode 100644
index 0000000..6dd879f
--- /dev/null
+++ b/db/migrations/005_create_presign_by_id_table.down.sql
@@ -0,0 +1 @@
+DROP TABLE presign_by_id;
diff --git a/db/migrations/005_create_presign_by_id_table.up.sql b/db/migrations/005_create_presign_by_id_table.up.sql
new file mode 100644
index 0000000..463771d
--- /dev/null
+++ b/db/migrations/005_create_presign_by_id_table.up.sql
@@ -0,0 +1,9 @@
+CREATE TABLE IF NOT EXISTS presign_by_id(
+  presign_id VARCHAR(256),
+  work_id VARCHAR(256),
+  pids_string TEXT,
+  status VARCHAR(64),
+  presign_output BLOB,
+  created_time DATETIME DEFAULT CURRENT_TIMESTAMP,
+  PRIMARY KEY (presign_id)
+);
diff --git a/db/migrations/006_copy_presign_table.down.sql b/db/migrations/006_copy_presign_table.down.sql
new file mode 100644
index 0000000..f0ff408
--- /dev/null
+++ b/db/migrations/006_copy_presign_table.down.sql
@@ -0,0 +1 @@
+DELETE FROM presign_by_id;
diff --git a/db/migrations/006_copy_presign_table.up.sql b/db/migrations/006_copy_presign_table.up.sql
new file mode 100644
index 0000000..1a299dd
--- /dev/null
+++ b/db/migrations/006_copy_presign_table.up.sql
@@ -0,0 +1,2 @@
+INSERT INTO presign_by_id (presign_id, work_id, pids_string, status, presign_output, created_time)
+  SELECT presign_id, work_id, pids_string, status, presign_output, created_time FROM presign;
diff --git a/db/migrations/007_drop_presign_table.down.sql b/db/migrations/007_drop_presign_table.down.sql
new file mode 100644
index 0000000..2149182
--- /dev/null
+++ b/db/migrations/007_drop_presign_table.down.sql
@@ -0,0 +1,9 @@
+CREATE TABLE IF NOT EXISTS presign(
+  presign_id VARCHAR(256),
+  work_id VARCHAR(256),
+  pids_string TEXT,
+  status VARCHAR(64),
+  presign_output BLOB,
+  created_time DATETIME DEFAULT CURRENT_TIMESTAMP,
+  PRIMARY KEY (work_id)
+);
diff --git a/db/migrations/007_drop_presign_table.up.sql b/db/migrations/007_drop_presign_table.up.sql
new file mode 100644
index 0000000..c91297b
--- /dev/null
+++ b/db/migrations/007_drop_presign_table.up.sql
@@ -0,0 +1 @@
+DROP TABLE presign;
diff --git a/db/migrations/008_rename_presign_by_id_table.down.sql b/db/migrations/008_rename_presign_by_id_table.down.sql
new file mode 100644
index 0000000..513589c
--- /dev/null
+++ b/db/migrations/008_rename_presign_by_id_table.down.sql
@@ -0,0 +1 @@
+ALTER TABLE presign RENAME TO presign_by_id;
diff --git a/db/migrations/008_rename_presign_by_id_table.up.sql b/db/migrations/008_rename_presign_by_id_table.up.sql
new file mode 100644
index 0000000..2a06491
--- /dev/null
+++ b/db/migrations/008_rename_presign_by_id_table.up.sql
@@ -0,0 +1 @@
+ALTER TABLE presign_by_id RENAME TO presign;
-- 
2.43.0


From 685c65571b8fee4b6245902fcf714254518f81da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 11/55] fix: mark presigns as used on every member and never
 use a presign twice

---
 db/database.go              | 32 +++++++++++++++++++++++++++-----
 worker/prework_selection.go |  7 +++++++
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/db/database.go b/db/database.go
index 6d76388..190d538 100644
--- a/db/database.go
+++ b/db/database.go
@@ -539,21 +539,43 @@ func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 	return results, nil
 }
 
+// UpdatePresignStatus marks all presigns as used. It changes nothing and returns an error if one of
+// them does not exist or has been used before.
 func (d *SqlDatabase) UpdatePresignStatus(presignIds []string) error {
 	presignString := getQueryQuestionMark(1, len(presignIds))
 	query := fmt.Sprintf( //nolint
-		"UPDATE presign SET status = ? WHERE presign_id IN %s",
+		"UPDATE presign SET status = ? WHERE status = ? AND presign_id IN %s",
 		presignString,
 	)
 
-	interfaceArr := make([]interface{}, len(presignIds)+1)
+	interfaceArr := make([]interface{}, len(presignIds)+2)
 	interfaceArr[0] = PresignStatusUsed
+	interfaceArr[1] = PresignStatusNotUsed
 	for i, presignId := range presignIds {
-		interfaceArr[i+1] = presignId
+		interfaceArr[i+2] = presignId
 	}
 
-	_, err := d.db.Exec(query, interfaceArr...)
-	return err
+	tx, err := d.db.Begin()
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback()
+
+	result, err := tx.Exec(query, interfaceArr...)
+	if err != nil {
+		return err
+	}
+
+	updated, err := result.RowsAffected()
+	if err != nil {
+		return err
+	}
+
+	if updated != int64(len(presignIds)) {
+		return fmt.Errorf("only %d of the presigns %v are not used", updated, presignIds)
+	}
+
+	return tx.Commit()
 }
 
 func (d *SqlDatabase) SavePeers(peers []*p2ptypes.Peer) error {
diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index f25e443..0f9e4ad 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -375,6 +375,13 @@ func (s *PreworkSelection) memberFinalized(msg *common.PreExecOutputMessage) {
 						Success: false,
 					})
 					return
+				} else if err := s.db.UpdatePresignStatus(msg.PresignIds); err != nil {
+					// A presign must never be used twice, whoever chooses it.
+					log.Error("Cannot use presigns, err = ", err)
+					s.broadcastResult(SelectionResult{
+						Success: false,
+					})
+					return
 				} else {
 					s.broadcastResult(SelectionResult{
 						Success:      true,
-- 
2.43.0


From 7a8db755ff50bba69503b2a756f2038d733e1319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 12/55] fix: do not lose a queued request when another one is
 inserted before it

---
 core/request_queue.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/request_queue.go b/core/request_queue.go
index 0df687d..b8908b6 100644
--- a/core/request_queue.go
+++ b/core/request_queue.go
@@ -54,8 +54,11 @@ func (q *requestQueue) AddWork(work *types.WorkRequest) bool {
 		first := q.queue[:position+1]
 		second := q.queue[position+1:]
 
-		q.queue = append(first, work)
-		q.queue = append(q.queue, second...)
+		// Build a new slice. Appending to first would overwrite the elements of second.
+		queue := make([]*types.WorkRequest, 0, len(q.queue)+1)
+		queue = append(queue, first...)
+		queue = append(queue, work)
+		q.queue = append(queue, second...)
 	}
 
 	return true
-- 
2.43.0


From 5d730e58d5a2d8ec75ac97228698035b3f6cbaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 13/55] fix: never run more than MaxWorker workers or the same
 work twice at a time

---
 core/engine.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index f04dc23..95840fd 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -141,14 +141,22 @@ func (engine *defaultEngine) AddRequest(request *types.WorkRequest) error {
 		}
 	}
 
-	if engine.requestQueue.AddWork(request) {
+	engine.workLock.Lock()
+	added := false
+	// A work that is running is not in the queue anymore. Do not start it for the second time.
+	if engine.workers[request.WorkId] == nil {
+		added = engine.requestQueue.AddWork(request)
+	}
+	engine.workLock.Unlock()
+
+	if added {
 		engine.startNextWork()
 	}
 
 	return nil
 }
 
-// startWork creates a new worker to execute a new task.
+// startWork creates a new worker to execute a new task. The caller must hold the workLock.
 func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 	var w worker.Worker
 	// Make a copy of myPid since the index will be changed during the TSS work.
@@ -165,8 +173,6 @@ func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 			engine.config, MaxBatchSize, engine.presignsManager)
 	}
 
-	engine.workLock.Lock()
-
 	engine.workers[request.WorkId] = w
 	cachedMsgs := engine.preworkCache.PopAllMessages(request.WorkId, nil)
 	log.Info("Starting a work with id ", request.WorkId, " with cache size ", len(cachedMsgs))
@@ -174,8 +180,6 @@ func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 	if err := w.Start(cachedMsgs); err != nil {
 		log.Error("Cannot start work error = ", err)
 	}
-
-	engine.workLock.Unlock()
 }
 
 // ProcessNewMessage processes new incoming tss message from network.
@@ -266,16 +270,17 @@ func (engine *defaultEngine) finishWorker(workId string) {
 // startNextWork gets a request from the queue (if not empty) and execute it. If there is no
 // available worker, wait for one of the current worker to finish before running.
 func (engine *defaultEngine) startNextWork() {
+	// Keep the lock until the new worker is registered. Otherwise, another routine could start a work
+	// in between and exceed the limit.
 	engine.workLock.Lock()
+	defer engine.workLock.Unlock()
+
 	if len(engine.workers) >= MaxWorker {
 		log.Verbosef("Max work reach, worker queue len = %d", len(engine.workers))
-		engine.workLock.Unlock()
 		return
 	}
 
 	nextWork := engine.requestQueue.Pop()
-	engine.workLock.Unlock()
-
 	if nextWork == nil {
 		return
 	}
-- 
2.43.0


From dd3f226776773985c774b662292fe159677bc528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 14/55] fix: access the engine's workers and nodes under their
 locks

---
 core/engine.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 95840fd..df66170 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -235,11 +235,13 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 	}
 
 	var dest *tss.PartyID
+	engine.nodeLock.RLock()
 	for _, node := range engine.nodes {
 		if node.PartyId.Id == tssMsg.From {
 			dest = node.PartyId
 		}
 	}
+	engine.nodeLock.RUnlock()
 
 	if dest != nil {
 		log.Verbose("Replying request message: ", msgKey, " dest = ", dest)
@@ -254,14 +256,14 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 func (engine *defaultEngine) finishWorker(workId string) {
 	engine.workLock.Lock()
 	delete(engine.workers, workId)
-	engine.workLock.Unlock()
 
 	// fmt.Println
 	s := fmt.Sprintf("%s finished work %s: remaining work id ", engine.myPid.Id, workId)
 	for id := range engine.workers {
 		s += id
 	}
-	log.Verbosef(s)
+	engine.workLock.Unlock()
+	log.Verbose(s)
 
 	// Start next work
 	engine.startNextWork()
-- 
2.43.0


From 7446832c8e671a3b0b6ff4b9f4364d179243d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 15/55] fix: do not take the engine's read locks recursively or
 leave them locked

---
 core/engine.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index df66170..dd71cfe 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -198,7 +198,7 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 		addToCache := false
 
 		engine.workLock.RLock()
-		worker := engine.getWorker(tssMsg.WorkId)
+		worker := engine.workers[tssMsg.WorkId]
 		if worker == nil {
 			// This could be the case when a worker has not started yet. Save it to the cache.
 			engine.preworkCache.AddMessage(tssMsg)
@@ -370,9 +370,10 @@ func (engine *defaultEngine) sendSignMessaged(signedMessage *common.SignedMessag
 			continue
 		}
 
-		node := engine.getNodeFromPeerId(pid.Id)
+		node := engine.nodes[pid.Id]
 
 		if node == nil {
+			engine.nodeLock.RUnlock()
 			log.Errorf("Cannot find node with party key %s", pid.Id)
 			return
 		}
-- 
2.43.0


From 793993f02d900fe673f1394f84760f9ac85aabf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 16/55] fix: extract message keys with empty content or with
 the separator in the work id

---
 types/common/tss_message.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index 7e9bacd..ccfeed6 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -115,9 +115,6 @@ func GetMessageKey(workdId, from, to, tssMsgType string) string {
 
 // ExtractMessageKey returns workId, from, to, tssMsgType
 func ExtractMessageKey(msgKey string) ([]string, error) {
-	if len(msgKey) == 0 {
-		return nil, nil
-	}
 	keys := strings.Split(msgKey, "__")
 	if len(keys) < 4 {
 		err := fmt.Errorf("not enough keys. msgKey = %s", msgKey)
@@ -125,7 +122,9 @@ func ExtractMessageKey(msgKey string) ([]string, error) {
 		return nil, err
 	}
 
-	return keys, nil
+	// The work id is the only part that could contain the separator.
+	n := len(keys) - 3
+	return append([]string{strings.Join(keys[:n], "__")}, keys[n:]...), nil
 }
 
 func GetPreworkSelectionMsgType() map[TssMessage_Type]bool {
-- 
2.43.0


From 777c0ece2215f92d1876f60d65a8f03db73d8965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 17/55] fix: reject network messages that are not signed by
 their sender or not for this node

---
 core/engine.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index dd71cfe..ee49218 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -429,7 +429,11 @@ func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 		return
 	}
 
-	// TODO: Check message signature here.
+	if err := engine.verifySignedMessage(signedMessage); err != nil {
+		log.Error("Message from peer ", message.FromPeerId, " is rejected, err = ", err)
+		return
+	}
+
 	if tssMessage.Type == common.TssMessage_UPDATE_MESSAGES && len(tssMessage.UpdateMessages) > 0 &&
 		tssMessage.IsBroadcast() {
 		engine.cacheWorkMsg(signedMessage)
@@ -440,6 +444,36 @@ func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 	}
 }
 
+// verifySignedMessage checks that a message is for this node and that it is signed by the node it
+// claims to be from. This node is not always the peer which delivers the message since a node can
+// relay messages of other nodes.
+func (engine *defaultEngine) verifySignedMessage(signedMessage *common.SignedMessage) error {
+	tssMessage := signedMessage.TssMessage
+	if signedMessage.From != tssMessage.From {
+		return fmt.Errorf("signer %s is not the sender %s", signedMessage.From, tssMessage.From)
+	}
+
+	if !tssMessage.IsBroadcast() && tssMessage.To != engine.myPid.Id {
+		return fmt.Errorf("message is for %s", tssMessage.To)
+	}
+
+	node := engine.getNodeFromPeerId(signedMessage.From)
+	if node == nil {
+		return fmt.Errorf("cannot find sender %s", signedMessage.From)
+	}
+
+	serialized, err := json.Marshal(tssMessage)
+	if err != nil {
+		return fmt.Errorf("error when marshalling message %w", err)
+	}
+
+	if !node.PubKey.VerifySignature(serialized, signedMessage.Signature) {
+		return fmt.Errorf("invalid signature of %s", signedMessage.From)
+	}
+
+	return nil
+}
+
 func (engine *defaultEngine) GetActiveWorkerCount() int {
 	engine.workLock.RLock()
 	defer engine.workLock.RUnlock()
-- 
2.43.0


From ed9290d637a3caabf095d0226e6b7fab31a364cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 18/55] fix: report a failure when an eddsa signature of any
 message is invalid

---
 core/engine_eddsa.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/engine_eddsa.go b/core/engine_eddsa.go
index 3097de1..6665dbb 100644
--- a/core/engine_eddsa.go
+++ b/core/engine_eddsa.go
@@ -11,6 +11,7 @@ import (
 	"github.com/sisu-network/lib/log"
 	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
 	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
+	"github.com/sisu-network/tss-lib/tss"
 )
 
 func (engine *defaultEngine) onEdKeygenFinished(request *wtypes.WorkRequest, output *edkeygen.LocalPartySaveData) {
@@ -37,9 +38,13 @@ func (engine *defaultEngine) onEdSigningFinished(request *wtypes.WorkRequest, da
 
 	myKeygen := request.EdSigningInput
 	pubkey := edwards.NewPublicKey(myKeygen.EDDSAPub.X(), myKeygen.EDDSAPub.Y())
-	if !edwards.Verify(pubkey, request.Messages[0], new(big.Int).SetBytes(data[0].Signature.R),
-		new(big.Int).SetBytes(data[0].Signature.S)) {
-		log.Critical("EDDSA signing failed, msg hex = ", hex.EncodeToString(request.Messages[0]))
+	for i := range data {
+		if !edwards.Verify(pubkey, request.Messages[i], new(big.Int).SetBytes(data[i].Signature.R),
+			new(big.Int).SetBytes(data[i].Signature.S)) {
+			log.Critical("EDDSA signing failed, msg hex = ", hex.EncodeToString(request.Messages[i]))
+			engine.callback.OnWorkFailed(request, make([]*tss.PartyID, 0))
+			return
+		}
 	}
 
 	result := &htypes.KeysignResult{
-- 
2.43.0


From cdc434533cf00424a5d364c0ace27fde2574aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 19/55] fix: report the result of an eddsa signing when the
 node is not selected

---
 core/engine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index ee49218..451ecef 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -484,10 +484,10 @@ func (engine *defaultEngine) GetActiveWorkerCount() int {
 // OnNodeNotSelected is called when this node is not selected by the leader in the election round.
 func (engine *defaultEngine) OnNodeNotSelected(request *types.WorkRequest) {
 	switch request.WorkType {
-	case types.EcKeygen:
+	case types.EcKeygen, types.EdKeygen:
 		// This should not happen as in keygen all nodes should be selected.
 
-	case types.EcSigning:
+	case types.EcSigning, types.EdSigning:
 		result := &htypes.KeysignResult{
 			Outcome: htypes.OutcometNotSelected,
 		}
-- 
2.43.0


From 692776bb600e3497603ded2ae123f5626ffec6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 20/55] fix: do not crash on network messages with missing
 parts

---
 core/engine.go              |  2 +-
 types/common/tss_message.go |  2 +-
 worker/default_worker.go    |  8 ++++++--
 worker/prework_selection.go | 11 +++++++++--
 worker/worker_executor.go   |  8 ++++++++
 5 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 451ecef..a4f377f 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -217,7 +217,7 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 }
 
 func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error {
-	msgKey := tssMsg.AskRequestMessage.MsgKey
+	msgKey := tssMsg.GetAskRequestMessage().GetMsgKey()
 	keys, err := commonTypes.ExtractMessageKey(msgKey)
 	if err != nil {
 		return err
diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index ccfeed6..d1ee13c 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -101,7 +101,7 @@ func (msg *TssMessage) GetMessageKey() (string, error) {
 		return "", err
 	}
 
-	return GetMessageKey(msg.WorkId, msg.From, msg.To, msg.UpdateMessages[0].Round), nil
+	return GetMessageKey(msg.WorkId, msg.From, msg.To, msg.UpdateMessages[0].GetRound()), nil
 }
 
 func (msg *TssMessage) IsSigningMessage() bool {
diff --git a/worker/default_worker.go b/worker/default_worker.go
index e6e0992..69e88d1 100644
--- a/worker/default_worker.go
+++ b/worker/default_worker.go
@@ -258,13 +258,17 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 
 	switch msg.Type {
 	case common.TssMessage_UPDATE_MESSAGES:
+		if len(msg.UpdateMessages) == 0 {
+			return errors.New("update messages are empty")
+		}
+
 		w.lock.RLock()
 
 		if w.executor == nil {
 			// We have not started execution yet.
 			w.preExecutionCache.AddMessage(msg)
 			addToCache = true
-			log.Verbose("Adding to cache 1:", w.workId, w.myPid.Id, msg.UpdateMessages[0].Round)
+			log.Verbose("Adding to cache 1:", w.workId, w.myPid.Id, msg.UpdateMessages[0].GetRound())
 		}
 
 		w.lock.RUnlock()
@@ -273,7 +277,7 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 			err := w.executor.ProcessUpdateMessage(msg)
 			if err != nil {
 				log.Errorf("Failed to process update message %s, %s, err = %s", w.workId,
-					msg.UpdateMessages[0].Round, err)
+					msg.UpdateMessages[0].GetRound(), err)
 			}
 		}
 
diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 0f9e4ad..4e0e973 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -128,7 +128,8 @@ func (s *PreworkSelection) Stop() {
 func (s *PreworkSelection) doPreExecutionAsLeader(cachedMsgs []*commonTypes.TssMessage) {
 	// Update availability from cache first.
 	for _, tssMsg := range cachedMsgs {
-		if tssMsg.Type == common.TssMessage_AVAILABILITY_RESPONSE && tssMsg.AvailabilityResponseMessage.Answer == common.AvailabilityResponseMessage_YES {
+		if tssMsg.Type == common.TssMessage_AVAILABILITY_RESPONSE && tssMsg.AvailabilityResponseMessage != nil &&
+			tssMsg.AvailabilityResponseMessage.Answer == common.AvailabilityResponseMessage_YES {
 			// update the availability.
 			for _, p := range s.allParties {
 				if p.Id == tssMsg.From {
@@ -303,7 +304,7 @@ func (s *PreworkSelection) leaderFinalized(success bool, presignIds []string, se
 func (s *PreworkSelection) doPreExecutionAsMember(leader *tss.PartyID, cachedMsgs []*commonTypes.TssMessage) {
 	// Check in the cache to see if the leader has sent a message to this node regarding the participants.
 	for _, msg := range cachedMsgs {
-		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT {
+		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT && msg.PreExecOutputMessage != nil {
 			log.Verbose("We have received final OUTCOME, work id = ", s.request.WorkId)
 			s.memberFinalized(msg.PreExecOutputMessage)
 			return
@@ -440,10 +441,16 @@ func (s *PreworkSelection) ProcessNewMessage(tssMsg *commonTypes.TssMessage) err
 			return fmt.Errorf("error when processing execution request %w", err)
 		}
 	case common.TssMessage_AVAILABILITY_RESPONSE:
+		if tssMsg.AvailabilityResponseMessage == nil {
+			return errors.New("availability response message is nil")
+		}
 		if err := s.onPreExecutionResponse(tssMsg); err != nil {
 			return fmt.Errorf("error when processing execution response %w", err)
 		}
 	case common.TssMessage_PRE_EXEC_OUTPUT:
+		if tssMsg.PreExecOutputMessage == nil {
+			return errors.New("pre exec output message is nil")
+		}
 		// This output of workParticipantCh is called only once. We do checking for pids length to
 		// make sure we only send message to this channel once.
 		s.preExecMsgCh <- tssMsg.PreExecOutputMessage
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 59343e0..6a0590e 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -346,8 +346,16 @@ func (w *WorkerExecutor) ProcessUpdateMessage(tssMsg *commonTypes.TssMessage) er
 		return errors.New("sender is nil")
 	}
 
+	if len(tssMsg.UpdateMessages) != len(jobs) {
+		return fmt.Errorf("expect %d update messages, got %d", len(jobs), len(tssMsg.UpdateMessages))
+	}
+
 	for i := range jobs {
 		updateMessage := tssMsg.UpdateMessages[i]
+		if updateMessage == nil {
+			return errors.New("update message is nil")
+		}
+
 		msg, err := tss.ParseWireMessage(updateMessage.Data, from, tssMsg.IsBroadcast())
 		if err != nil {
 			return fmt.Errorf("error when parsing wire message %w", err)
-- 
2.43.0


From d37bd4a94685b67931fc2d2444e5c2019913dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 21/55] fix: accept the selection only from the leader and only
 with distinct parties

---
 worker/prework_selection.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 4e0e973..6fa5798 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -304,7 +304,7 @@ func (s *PreworkSelection) leaderFinalized(success bool, presignIds []string, se
 func (s *PreworkSelection) doPreExecutionAsMember(leader *tss.PartyID, cachedMsgs []*commonTypes.TssMessage) {
 	// Check in the cache to see if the leader has sent a message to this node regarding the participants.
 	for _, msg := range cachedMsgs {
-		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT && msg.PreExecOutputMessage != nil {
+		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT && msg.PreExecOutputMessage != nil && msg.From == leader.Id {
 			log.Verbose("We have received final OUTCOME, work id = ", s.request.WorkId)
 			s.memberFinalized(msg.PreExecOutputMessage)
 			return
@@ -418,11 +418,13 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 		return false
 	}
 
+	selected := make(map[string]bool)
 	for _, pid := range msg.Pids {
 		partyId := helper.GetPidFromString(pid, s.allParties)
-		if partyId == nil {
+		if partyId == nil || selected[pid] {
 			return false
 		}
+		selected[pid] = true
 	}
 
 	return true
@@ -451,6 +453,9 @@ func (s *PreworkSelection) ProcessNewMessage(tssMsg *commonTypes.TssMessage) err
 		if tssMsg.PreExecOutputMessage == nil {
 			return errors.New("pre exec output message is nil")
 		}
+		if tssMsg.From != s.leader.Id {
+			return fmt.Errorf("pre exec output is from %s who is not the leader", tssMsg.From)
+		}
 		// This output of workParticipantCh is called only once. We do checking for pids length to
 		// make sure we only send message to this channel once.
 		s.preExecMsgCh <- tssMsg.PreExecOutputMessage
-- 
2.43.0


From e58670ca5d8e8f2cff29e1bd7dc7da78c44536ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 22/55] fix: do not block on selection messages which arrive
 after the selection

---
 worker/prework_selection.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 6fa5798..641541f 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -50,6 +50,7 @@ type PreworkSelection struct {
 	callback         func(SelectionResult)
 	preExecMsgCh     chan *common.PreExecOutputMessage
 	memberResponseCh chan *common.TssMessage
+	doneCh           chan struct{} // closed when the selection has its result
 	cfg              config.TimeoutConfig
 
 	///////////////////////
@@ -80,6 +81,7 @@ func NewPreworkSelection(request *types.WorkRequest, allParties []*tss.PartyID,
 		preExecMsgCh:     make(chan *commonTypes.PreExecOutputMessage, 1),
 		presignsManager:  presignsManager,
 		memberResponseCh: make(chan *commonTypes.TssMessage, len(allParties)),
+		doneCh:           make(chan struct{}),
 		callback:         callback,
 		stopped:          atomic.NewBool(false),
 		cfg:              cfg,
@@ -432,6 +434,7 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 
 func (s *PreworkSelection) broadcastResult(result SelectionResult) {
 	s.stopped.Store(true)
+	close(s.doneCh)
 
 	s.callback(result)
 }
@@ -458,7 +461,10 @@ func (s *PreworkSelection) ProcessNewMessage(tssMsg *commonTypes.TssMessage) err
 		}
 		// This output of workParticipantCh is called only once. We do checking for pids length to
 		// make sure we only send message to this channel once.
-		s.preExecMsgCh <- tssMsg.PreExecOutputMessage
+		select {
+		case s.preExecMsgCh <- tssMsg.PreExecOutputMessage:
+		case <-s.doneCh:
+		}
 
 	default:
 		return errors.New("defaultPreworkSelection: invalid message " + tssMsg.Type.String())
@@ -487,8 +493,10 @@ func (s *PreworkSelection) onPreExecutionRequest(tssMsg *commonTypes.TssMessage)
 }
 
 func (s *PreworkSelection) onPreExecutionResponse(tssMsg *commonTypes.TssMessage) error {
-	// TODO: Check if we have finished selection process. Otherwise, this could create a blocking
-	// operation.
-	s.memberResponseCh <- tssMsg
+	select {
+	case s.memberResponseCh <- tssMsg:
+	case <-s.doneCh:
+		// We have finished selection process. Nobody reads this channel anymore.
+	}
 	return nil
 }
-- 
2.43.0


From 6e9865b61c399c107206e9cb77ad160390956f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 23/55] fix: fail a work instead of crashing when its
 preparams, keygen output or messages are missing

---
 worker/types/work_request.go | 12 ++++++++++++
 worker/worker_executor.go    |  8 +++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/worker/types/work_request.go b/worker/types/work_request.go
index b87f7c9..7f4bff3 100644
--- a/worker/types/work_request.go
+++ b/worker/types/work_request.go
@@ -100,6 +100,18 @@ func (request *WorkRequest) Validate() error {
 	default:
 		return errors.New("Invalid request type")
 	}
+
+	if request.IsSigning() {
+		if request.WorkType == EcSigning && request.EcSigningInput == nil ||
+			request.WorkType == EdSigning && request.EdSigningInput == nil {
+			return errors.New("There is no keygen output for this signing request")
+		}
+
+		if len(request.Messages) == 0 || len(request.Chains) == 0 {
+			return errors.New("There is no message in this signing request")
+		}
+	}
+
 	return nil
 }
 
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 6a0590e..f949ee0 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -121,7 +121,13 @@ func NewWorkerExecutor(
 func (w *WorkerExecutor) Init() (err error) {
 	if w.workType == wTypes.EcKeygen {
 		if w.request.EcKeygenInput == nil {
-			err = w.loadPreparams()
+			if err = w.loadPreparams(); err != nil {
+				// We cannot do keygen without preparams, kill the whole worker.
+				w.broadcastResult(ExecutionResult{
+					Success: false,
+				})
+				return err
+			}
 		} else {
 			w.ecKeygenInput = w.request.EcKeygenInput
 		}
-- 
2.43.0


From 9a38105915182c77ec3d4ec24459cda45a8657d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 24/55] fix: wait for the last message of a signing job before
 it stops sending messages

---
 core/message/tss_phase_messages.go | 11 +++++++++--
 worker/job.go                      |  4 +++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index 835ab9d..c50b518 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -76,15 +76,22 @@ func GetMsgRound(content tss.MessageContent) (Round, error) {
 	}
 }
 
-func GetMessageCountByWorkType(jobType wtypes.WorkType, isPresign bool) int {
+// GetMessageCountByWorkType returns the number of message types that a job produces. hasPresignData
+// is true if a signing job starts with presign data and hasMessage is true if it has a message to
+// sign, i.e. it does not stop after presigning.
+func GetMessageCountByWorkType(jobType wtypes.WorkType, hasPresignData, hasMessage bool) int {
 	switch jobType {
 	case wtypes.EcKeygen:
 		return 4
 	case wtypes.EcSigning:
-		if isPresign {
+		if hasPresignData {
 			return 1
 		}
 
+		if hasMessage {
+			return 8
+		}
+
 		return 7
 	case wtypes.EdKeygen:
 		return 3
diff --git a/worker/job.go b/worker/job.go
index b95e382..56927b6 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -59,6 +59,7 @@ type Job struct {
 
 	// Ecdsa
 	hasPresignData bool
+	hasMessage     bool
 	ecEndKeygenCh  chan eckeygen.LocalPartySaveData
 	ecEndSigningCh chan *ecsigning.SignatureData
 
@@ -119,6 +120,7 @@ func NewEcSigningJob(
 	job := baseJob(workId, index, party, wTypes.EcSigning, callback, outCh, timeOut)
 	job.ecEndSigningCh = endCh
 	job.hasPresignData = signingInput != nil
+	job.hasMessage = msg != nil
 
 	return job
 }
@@ -300,7 +302,7 @@ func (job *Job) addOutMessage(msg tss.Message) {
 	count := len(job.finishedMsgs)
 	job.finishLock.Unlock()
 
-	if count == message.GetMessageCountByWorkType(job.jobType, job.hasPresignData) {
+	if count == message.GetMessageCountByWorkType(job.jobType, job.hasPresignData, job.hasMessage) {
 		// Mark the outCh done
 		job.doneOutCh.Store(true)
 	}
-- 
2.43.0


From a1e7818186f3de00cfc120ecc2cbde5e5dade03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 25/55] fix: detect and ask for lost messages of eddsa works

---
 core/message/tss_phase_messages.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index c50b518..16ca693 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -124,6 +124,20 @@ func GetMessagesByWorkType(jobType wtypes.WorkType) []string {
 			string(proto.MessageName(&ecsigning.SignRound6Message{})),
 			string(proto.MessageName(&ecsigning.SignRound7Message{})),
 		}
+
+	case wtypes.EdKeygen:
+		return []string{
+			string(proto.MessageName(&edkeygen.KGRound1Message{})),
+			string(proto.MessageName(&edkeygen.KGRound2Message1{})),
+			string(proto.MessageName(&edkeygen.KGRound2Message2{})),
+		}
+
+	case wtypes.EdSigning:
+		return []string{
+			string(proto.MessageName(&edsigning.SignRound1Message{})),
+			string(proto.MessageName(&edsigning.SignRound2Message{})),
+			string(proto.MessageName(&edsigning.SignRound3Message{})),
+		}
 	}
 
 	return make([]string, 0)
@@ -140,7 +154,12 @@ func IsBroadcastMessage(msgType string) bool {
 		string(proto.MessageName(&ecsigning.SignRound4Message{})),
 		string(proto.MessageName(&ecsigning.SignRound5Message{})),
 		string(proto.MessageName(&ecsigning.SignRound6Message{})),
-		string(proto.MessageName(&ecsigning.SignRound7Message{})):
+		string(proto.MessageName(&ecsigning.SignRound7Message{})),
+		string(proto.MessageName(&edkeygen.KGRound1Message{})),
+		string(proto.MessageName(&edkeygen.KGRound2Message2{})),
+		string(proto.MessageName(&edsigning.SignRound1Message{})),
+		string(proto.MessageName(&edsigning.SignRound2Message{})),
+		string(proto.MessageName(&edsigning.SignRound3Message{})):
 
 		return true
 	default:
-- 
2.43.0


From 889ba54a14acb0a24d3ad6883e1e20caeec0fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 26/55] fix: return the right round of ecdsa signing and eddsa
 keygen round 2 messages

---
 core/message/tss_phase_messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index 16ca693..93e5cf8 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -47,7 +47,7 @@ func GetMsgRound(content tss.MessageContent) (Round, error) {
 	case *ecsigning.SignRound1Message1, *ecsigning.SignRound1Message2:
 		return EcSigning1, nil
 	case *ecsigning.SignRound2Message:
-		return EcSigning1, nil
+		return EcSigning2, nil
 	case *ecsigning.SignRound3Message:
 		return EcSigning3, nil
 	case *ecsigning.SignRound4Message:
@@ -63,7 +63,7 @@ func GetMsgRound(content tss.MessageContent) (Round, error) {
 	case *edkeygen.KGRound1Message:
 		return EdKeygen1, nil
 	case *edkeygen.KGRound2Message1, *edkeygen.KGRound2Message2:
-		return EcKeygen2, nil
+		return EdKeygen2, nil
 	case *edsigning.SignRound1Message:
 		return EdSigning1, nil
 	case *edsigning.SignRound2Message:
-- 
2.43.0


From 1ac24e3fe41810cae16942d736ad759841c5f1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 27/55] fix: ask for the right message when all messages of a
 signing with presigns are lost

---
 core/message/tss_phase_messages.go   | 10 +++++++++-
 worker/components/message_monitor.go |  6 +++---
 worker/worker_executor.go            |  4 +++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index 93e5cf8..9fd2be1 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -103,7 +103,9 @@ func GetMessageCountByWorkType(jobType wtypes.WorkType, hasPresignData, hasMessa
 	}
 }
 
-func GetMessagesByWorkType(jobType wtypes.WorkType) []string {
+// GetMessagesByWorkType returns all message types of a work in the order they are sent. A signing
+// work which starts with presign data only has the last one.
+func GetMessagesByWorkType(jobType wtypes.WorkType, hasPresignData bool) []string {
 	switch jobType {
 	case wtypes.EcKeygen:
 		return []string{
@@ -114,6 +116,12 @@ func GetMessagesByWorkType(jobType wtypes.WorkType) []string {
 		}
 
 	case wtypes.EcSigning:
+		if hasPresignData {
+			return []string{
+				string(proto.MessageName(&ecsigning.SignRound7Message{})),
+			}
+		}
+
 		return []string{
 			string(proto.MessageName(&ecsigning.SignRound1Message1{})),
 			string(proto.MessageName(&ecsigning.SignRound1Message2{})),
diff --git a/worker/components/message_monitor.go b/worker/components/message_monitor.go
index 0885614..e86989e 100644
--- a/worker/components/message_monitor.go
+++ b/worker/components/message_monitor.go
@@ -38,9 +38,9 @@ type DefaultMessageMonitor struct {
 	allMessages      []string // all messages that this node should receive from each peer
 }
 
-func NewMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, callback MessageMonitorCallback,
+func NewMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, hasPresignData bool, callback MessageMonitorCallback,
 	pIDsMap map[string]*tss.PartyID, timeout time.Duration) MessageMonitor {
-	allMessages := message.GetMessagesByWorkType(jobType)
+	allMessages := message.GetMessagesByWorkType(jobType, hasPresignData)
 	receivedMessages := make(map[string][]bool)
 	for pid := range pIDsMap {
 		receivedMessages[pid] = make([]bool, len(allMessages))
@@ -55,7 +55,7 @@ func NewMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, callback Mes
 		callback:         callback,
 		pIDsMap:          pIDsMap,
 		receivedMessages: receivedMessages,
-		allMessages:      message.GetMessagesByWorkType(jobType),
+		allMessages:      allMessages,
 	}
 }
 
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index f949ee0..c6523cd 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -133,7 +133,9 @@ func (w *WorkerExecutor) Init() (err error) {
 		}
 	}
 
-	w.messageMonitor = components.NewMessageMonitor(w.myPid, w.workType, w, w.pIDsMap, w.cfg.MonitorMessageTimeout)
+	hasPresignData := len(w.ecPresignOutput) > 0 && w.ecPresignOutput[0] != nil
+	w.messageMonitor = components.NewMessageMonitor(w.myPid, w.workType, hasPresignData, w, w.pIDsMap,
+		w.cfg.MonitorMessageTimeout)
 	go w.messageMonitor.Start()
 
 	p2pCtx := tss.NewPeerContext(w.pIDs)
-- 
2.43.0


From 66363ce7ae7da2d97d668bf7fcd01c6e5fac8ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 28/55] fix: write the config file without fields that do not
 exist

---
 core/config/toml.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/config/toml.go b/core/config/toml.go
index 755cfe0..bf810b5 100644
--- a/core/config/toml.go
+++ b/core/config/toml.go
@@ -25,13 +25,16 @@ port = {{ .Port }}
 	username = "{{ .Db.Username }}"
 	password = "{{ .Db.Password }}"
 	schema = "{{ .Db.Schema }}"
-	migration-path = "{{ .Db.MigrationPath }}"
 [connection]
   host = "0.0.0.0"
   port = 28300
   rendezvous = "rendezvous"
-  peers = {{ .Connection.BootstrapPeers }}
-`
+{{ range .Connection.Peers }}
+  [[connection.peers]]
+    address = "{{ .Address }}"
+    pubkey = "{{ .PubKey }}"
+    pubkey_type = "{{ .PubKeyType }}"
+{{ end }}`
 
 var configTemplate *template.Template
 
-- 
2.43.0


From 306cb1b6e44ce7dededbabc0baff37c8dd2579d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 29/55] fix: quote the strings of the written config file

---
 core/config/toml.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/core/config/toml.go b/core/config/toml.go
index bf810b5..30015d8 100644
--- a/core/config/toml.go
+++ b/core/config/toml.go
@@ -10,30 +10,30 @@ import (
 const defaultConfigTemplate = `# This is a TOML config file.
 # For more information, see https://github.com/toml-lang/toml
 
-home-dir = "{{ .HomeDir }}"
+home-dir = {{ printf "%q" .HomeDir }}
 use-on-memory = {{ .UseOnMemory }}
 shortcut-preparams = {{ .ShortcutPreparams }}
-sisu-server-url = "{{ .SisuServerUrl }}"
+sisu-server-url = {{ printf "%q" .SisuServerUrl }}
 port = {{ .Port }}
 
 ###############################################################################
 ###                        Database Configuration                           ###
 ###############################################################################
 [db]
-	host = "{{ .Db.Host }}"
+	host = {{ printf "%q" .Db.Host }}
 	port = {{ .Db.Port }}
-	username = "{{ .Db.Username }}"
-	password = "{{ .Db.Password }}"
-	schema = "{{ .Db.Schema }}"
+	username = {{ printf "%q" .Db.Username }}
+	password = {{ printf "%q" .Db.Password }}
+	schema = {{ printf "%q" .Db.Schema }}
 [connection]
   host = "0.0.0.0"
   port = 28300
   rendezvous = "rendezvous"
 {{ range .Connection.Peers }}
   [[connection.peers]]
-    address = "{{ .Address }}"
-    pubkey = "{{ .PubKey }}"
-    pubkey_type = "{{ .PubKeyType }}"
+    address = {{ printf "%q" .Address }}
+    pubkey = {{ printf "%q" .PubKey }}
+    pubkey_type = {{ printf "%q" .PubKeyType }}
 {{ end }}`
 
 var configTemplate *template.Template
-- 
2.43.0


From 8016a4323fa79559ad87151d14adae43d03d677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 30/55] fix: do not lose messages that arrive together with a
 previous one in a stream

---
 p2p/helper.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/helper.go b/p2p/helper.go
index 0849b91..9e88369 100644
--- a/p2p/helper.go
+++ b/p2p/helper.go
@@ -18,9 +18,9 @@ const (
 )
 
 func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
-	streamReader := bufio.NewReader(stream)
+	// Do not buffer the stream here since the buffer could take bytes of the next message.
 	lengthBytes := make([]byte, HeaderLength)
-	n, err := io.ReadFull(streamReader, lengthBytes)
+	n, err := io.ReadFull(stream, lengthBytes)
 	if n != HeaderLength || err != nil {
 		return nil, fmt.Errorf("error in read the message head %w", err)
 	}
@@ -29,7 +29,7 @@ func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
 		return nil, fmt.Errorf("payload length:%d exceed max payload length:%d", length, MaxPayload)
 	}
 	dataBuf := make([]byte, length)
-	n, err = io.ReadFull(streamReader, dataBuf)
+	n, err = io.ReadFull(stream, dataBuf)
 	if uint32(n) != length || err != nil {
 		return nil, fmt.Errorf("short read err(%w), we would like to read: %d, however we only read: %d", err, length, n)
 	}
-- 
2.43.0


From 017bd892e871e295ef02fc3ba25e6c83de49c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 31/55] fix: do not send a payload that no node accepts

---
 p2p/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/connection.go b/p2p/connection.go
index 0f8b931..687a818 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -55,6 +55,10 @@ func (con *Connection) createStream(protocolId protocol.ID) (network.Stream, err
 }
 
 func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
+	if len(msg) > MaxPayload {
+		return fmt.Errorf("payload length:%d exceed max payload length:%d", len(msg), MaxPayload)
+	}
+
 	stream := con.streams[protocolId]
 	if stream == nil {
 		var err error
-- 
2.43.0


From 46d8863d37a99507adc28601aaafdc8697b0952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 32/55] fix: access the streams of a connection under its lock

---
 p2p/connection.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/p2p/connection.go b/p2p/connection.go
index 687a818..d71fe89 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -33,6 +33,9 @@ func NewConnection(pID peer.ID, addr maddr.Multiaddr, host *host.Host) *Connecti
 }
 
 func (con *Connection) ReleaseStream() {
+	con.lock.Lock()
+	defer con.lock.Unlock()
+
 	for _, stream := range con.streams {
 		if stream != nil {
 			stream.Reset()
@@ -40,6 +43,7 @@ func (con *Connection) ReleaseStream() {
 	}
 }
 
+// createStream opens a new stream. The caller must hold the lock.
 func (con *Connection) createStream(protocolId protocol.ID) (network.Stream, error) {
 	ctx, cancel := context.WithTimeout(context.Background(), TimeoutConnecting)
 	defer cancel()
@@ -59,6 +63,9 @@ func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
 		return fmt.Errorf("payload length:%d exceed max payload length:%d", len(msg), MaxPayload)
 	}
 
+	con.lock.Lock()
+	defer con.lock.Unlock()
+
 	stream := con.streams[protocolId]
 	if stream == nil {
 		var err error
@@ -69,8 +76,5 @@ func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
 		}
 	}
 
-	con.lock.Lock()
-	defer con.lock.Unlock()
-
 	return WriteStreamWithBuffer(msg, stream)
 }
-- 
2.43.0


From e8e70f2c8ac8702abbf209478fc9788557946e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 33/55] fix: open a new stream after writing to a stream has
 failed

---
 p2p/connection.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/p2p/connection.go b/p2p/connection.go
index d71fe89..2b76886 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -76,5 +76,12 @@ func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
 		}
 	}
 
-	return WriteStreamWithBuffer(msg, stream)
+	if err := WriteStreamWithBuffer(msg, stream); err != nil {
+		// This stream is broken. Open a new one for the next message.
+		stream.Reset()
+		delete(con.streams, protocolId)
+		return err
+	}
+
+	return nil
 }
-- 
2.43.0


From ea96e8bc845634d3df2582f42274d666c4469598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 34/55] fix: keep reading a stream when there is no listener
 for its message yet

---
 p2p/connection_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 07ad60b..442cdad 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -181,7 +181,7 @@ func (cm *DefaultConnectionManager) handleStream(stream network.Stream) {
 			listener := cm.getListener(protocol)
 			if listener == nil {
 				// No listener. Ignore the message
-				return
+				continue
 			}
 
 			go func(peerIDString string, dataBuf []byte) {
-- 
2.43.0


From e5a91b3f5a52c958934133adf1e691c8cb05bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 35/55] fix: apply the write timeout to streams so that a
 stalled peer cannot block the node

---
 p2p/helper.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/helper.go b/p2p/helper.go
index 9e88369..5ee47a6 100644
--- a/p2p/helper.go
+++ b/p2p/helper.go
@@ -41,6 +41,11 @@ func WriteStreamWithBuffer(msg []byte, stream network.Stream) error {
 	lengthBytes := make([]byte, HeaderLength)
 	binary.LittleEndian.PutUint32(lengthBytes, length)
 
+	// A peer that does not read its messages should not block this node forever.
+	if err := stream.SetWriteDeadline(time.Now().Add(TimeoutWritePayload)); err != nil {
+		return fmt.Errorf("fail to set write deadline: %w", err)
+	}
+
 	streamWrite := bufio.NewWriter(stream)
 	n, err := streamWrite.Write(lengthBytes)
 	if n != HeaderLength || err != nil {
-- 
2.43.0


From 6bf2dd2e28856f8cffc56fd06c690b57b1853da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 36/55] fix: keep the requests of the heart under a lock and
 save them before their work can finish

---
 core/heart.go | 78 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 61 insertions(+), 17 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 26c2110..f3fc52b 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -6,6 +6,7 @@ import (
 
 	"fmt"
 	"strconv"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -51,6 +52,8 @@ type Heart struct {
 	privateKey ctypes.PrivKey
 	aesKey     []byte
 
+	// Protects valPubkeys and keysignRequests.
+	lock            *sync.RWMutex
 	keysignRequests map[string]*htypes.KeysignRequest
 }
 
@@ -59,6 +62,7 @@ func NewHeart(config config.HeartConfig, client client.Client) *Heart {
 		config:          config,
 		aesKey:          config.AesKey,
 		client:          client,
+		lock:            &sync.RWMutex{},
 		keysignRequests: make(map[string]*htypes.KeysignRequest),
 	}
 }
@@ -120,8 +124,8 @@ func (h *Heart) initConnectionManager() error {
 	myNode := NewNode(h.privateKey.PubKey())
 	h.engine = NewEngine(myNode, h.cm, h.db, h, h.privateKey, config.NewDefaultTimeoutConfig())
 
-	if h.valPubkeys != nil {
-		h.engine.AddNodes(NewNodes(h.valPubkeys))
+	if valPubkeys := h.getValPubkeys(); valPubkeys != nil {
+		h.engine.AddNodes(NewNodes(valPubkeys))
 	}
 
 	log.Info("Adding engine as listener for connection manager....")
@@ -167,7 +171,7 @@ func (h *Heart) loadPeers(engine Engine) {
 
 		pubkeys = append(pubkeys, pubkey)
 	}
-	h.valPubkeys = pubkeys
+	h.setValPubkeys(pubkeys)
 
 	// Add pubkeys to engine
 	engine.AddNodes(NewNodes(pubkeys))
@@ -187,21 +191,16 @@ func (h *Heart) OnWorkKeygenFinished(result *htypes.KeygenResult) {
 }
 
 func (h *Heart) OnWorkSigningFinished(request *types.WorkRequest, result *htypes.KeysignResult) {
-	clientRequest := h.keysignRequests[request.WorkId]
-	result.Request = clientRequest
+	// Remove this request.
+	result.Request = h.popKeysignRequest(request.WorkId)
 
 	err := h.client.PostKeysignResult(result)
 	if err != nil {
 		log.Error("Faield to post result back to sisu")
 	}
-
-	// Remove this request.
-	delete(h.keysignRequests, request.WorkId)
 }
 
 func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID) {
-	clientRequest := h.keysignRequests[request.WorkId]
-
 	switch request.WorkType {
 	case types.EcKeygen, types.EdKeygen:
 		result := htypes.KeygenResult{
@@ -213,7 +212,7 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 
 	case types.EcSigning, types.EdSigning:
 		result := htypes.KeysignResult{
-			Request:  clientRequest,
+			Request:  h.popKeysignRequest(request.WorkId),
 			Outcome:  htypes.OutcomeFailure,
 			Culprits: culprits,
 		}
@@ -223,6 +222,44 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 
 // --- End fo Engine callback /
 
+func (h *Heart) getValPubkeys() []ctypes.PubKey {
+	h.lock.RLock()
+	defer h.lock.RUnlock()
+
+	return h.valPubkeys
+}
+
+func (h *Heart) setValPubkeys(pubkeys []ctypes.PubKey) {
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
+	h.valPubkeys = pubkeys
+}
+
+// addKeysignRequest saves the client request of a work. It returns false if there is one already.
+func (h *Heart) addKeysignRequest(workId string, req *htypes.KeysignRequest) bool {
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
+	if h.keysignRequests[workId] != nil {
+		return false
+	}
+	h.keysignRequests[workId] = req
+
+	return true
+}
+
+// popKeysignRequest removes the client request of a work and returns it.
+func (h *Heart) popKeysignRequest(workId string) *htypes.KeysignRequest {
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
+	req := h.keysignRequests[workId]
+	delete(h.keysignRequests, workId)
+
+	return req
+}
+
 // --- Implements Server API  /
 
 func (h *Heart) SetSisuReady(isReady bool) {
@@ -238,6 +275,9 @@ func (h *Heart) SetSisuReady(isReady bool) {
 // SetPrivKey receives encrypted private key from Sisu, decrypts it and start the engine,
 // network communication, etc. This is only for integration testing.
 func (h *Heart) SetBootstrappedKeys(tPubKeys []ctypes.PubKey) {
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
 	if h.valPubkeys == nil {
 		h.valPubkeys = tPubKeys
 	}
@@ -290,7 +330,7 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 
 	// TODO: Check if our pubkey is one of the pubkeys.
 	n := len(tPubKeys)
-	h.valPubkeys = tPubKeys
+	h.setValPubkeys(tPubKeys)
 
 	nodes := NewNodes(tPubKeys)
 	// For keygen, workId is the same as keygenId
@@ -371,9 +411,13 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 			signMessages, chains, keygenData)
 	}
 
-	err := h.engine.AddRequest(workRequest)
+	// Save the request first since the work could finish at any time after it is added.
+	added := h.addKeysignRequest(workId, req)
 
-	h.keysignRequests[workRequest.WorkId] = req
+	err := h.engine.AddRequest(workRequest)
+	if err != nil && added {
+		h.popKeysignRequest(workId)
+	}
 
 	return err
 }
@@ -390,7 +434,7 @@ func (h *Heart) BlockEnd(blockHeight int64) error {
 		return ErrDheartNotReady
 	}
 
-	if h.valPubkeys == nil || len(h.valPubkeys) == 0 {
+	if len(h.getValPubkeys()) == 0 {
 		return nil
 	}
 
@@ -403,8 +447,8 @@ func (h *Heart) BlockEnd(blockHeight int64) error {
 // --- End of Server API  /
 
 func (h *Heart) doPresign(blockHeight int64) {
-	nodes := NewNodes(h.valPubkeys)
-	pids := make([]*tss.PartyID, len(h.valPubkeys))
+	nodes := NewNodes(h.getValPubkeys())
+	pids := make([]*tss.PartyID, len(nodes))
 	for i, node := range nodes {
 		pids[i] = node.PartyId
 	}
-- 
2.43.0


From 76b311534bde394a790b947e0b2c98a44bddd129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 37/55] fix: return an error for a keysign without keygen
 output or a request of an unknown key type

---
 core/heart.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/heart.go b/core/heart.go
index f3fc52b..0095524 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -349,6 +349,8 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 		request = types.NewEcKeygenRequest(keyType, workId, sorted, utils.GetThreshold(n), nil)
 	case libchain.KEY_TYPE_EDDSA:
 		request = types.NewEdKeygenRequest(workId, sorted, utils.GetThreshold(n))
+	default:
+		return fmt.Errorf("Unknown key type: %s", keyType)
 	}
 
 	return h.engine.AddRequest(request)
@@ -404,11 +406,13 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 	case libchain.KEY_TYPE_EDDSA:
 		keygenData, err := h.db.LoadEdKeygen(req.KeyType)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		workRequest = types.NewEdSigningRequest(workId, pids, utils.GetThreshold(len(pids)),
 			signMessages, chains, keygenData)
+	default:
+		return fmt.Errorf("Unknown key type: %s", req.KeyType)
 	}
 
 	// Save the request first since the work could finish at any time after it is added.
-- 
2.43.0


From cc19f32b87d2f8bd2b1a04f490769be0be81062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 38/55] fix: access the connections of the connection manager
 under a lock

---
 p2p/connection_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 442cdad..5d61587 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -55,6 +55,7 @@ type DefaultConnectionManager struct {
 	rendezvous       string
 	bootstrapPeers   []maddr.Multiaddr
 	connections      map[peer.ID]*Connection
+	connectionsLock  sync.RWMutex
 	listenerLock     sync.RWMutex
 	protocolListener map[protocol.ID]P2PDataListener
 	ready            *atomic.Bool
@@ -213,11 +214,13 @@ func (cm *DefaultConnectionManager) discover(ctx context.Context, host host.Host
 
 func (cm *DefaultConnectionManager) createConnections(ctx context.Context) {
 	// Creates connection objects.
+	cm.connectionsLock.Lock()
 	for _, peerAddr := range cm.bootstrapPeers {
 		addrInfo, _ := peer.AddrInfoFromP2pAddr(peerAddr)
 		conn := NewConnection(addrInfo.ID, peerAddr, &cm.host)
 		cm.connections[addrInfo.ID] = conn
 	}
+	cm.connectionsLock.Unlock()
 
 	// Attempts to connect to every bootstrapped peers.
 	log.Info("Trying to create connections with peers...")
@@ -247,7 +250,9 @@ func (cm *DefaultConnectionManager) createConnections(ctx context.Context) {
 }
 
 func (cm *DefaultConnectionManager) WriteToStream(pID peer.ID, protocolId protocol.ID, msg []byte) error {
+	cm.connectionsLock.RLock()
 	conn := cm.connections[pID]
+	cm.connectionsLock.RUnlock()
 	if conn == nil {
 		log.Error("Connection to pid not found, pid = ", pID)
 		return errors.New("pID not found")
-- 
2.43.0


From 8099a584076dff7982b6b40393ceb00c7ca6423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 39/55] fix: become ready only when Sisu is ready and the
 private key is set, and allow to retry a private key that cannot be used

---
 core/heart.go | 109 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 84 insertions(+), 25 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 0095524..afa35d8 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -50,9 +50,11 @@ type Heart struct {
 	ready atomic.Value
 
 	privateKey ctypes.PrivKey
-	aesKey     []byte
+	// Held while the private key is being set.
+	privateKeyLock *sync.Mutex
+	aesKey         []byte
 
-	// Protects valPubkeys and keysignRequests.
+	// Protects cm, engine, valPubkeys and keysignRequests.
 	lock            *sync.RWMutex
 	keysignRequests map[string]*htypes.KeysignRequest
 }
@@ -62,6 +64,7 @@ func NewHeart(config config.HeartConfig, client client.Client) *Heart {
 		config:          config,
 		aesKey:          config.AesKey,
 		client:          client,
+		privateKeyLock:  &sync.Mutex{},
 		lock:            &sync.RWMutex{},
 		keysignRequests: make(map[string]*htypes.KeysignRequest),
 	}
@@ -114,30 +117,40 @@ func (h *Heart) Start() error {
 	return nil
 }
 
-func (h *Heart) initConnectionManager() error {
+func (h *Heart) initConnectionManager(privateKey ctypes.PrivKey) error {
 	log.Info("Creating connection manager")
 
 	// Connection manager
-	h.cm = p2p.NewConnectionManager(h.config.Connection)
+	cm := p2p.NewConnectionManager(h.config.Connection)
 
 	// Engine
-	myNode := NewNode(h.privateKey.PubKey())
-	h.engine = NewEngine(myNode, h.cm, h.db, h, h.privateKey, config.NewDefaultTimeoutConfig())
+	myNode := NewNode(privateKey.PubKey())
+	if myNode == nil {
+		return fmt.Errorf("Invalid private key")
+	}
+	engine := NewEngine(myNode, cm, h.db, h, privateKey, config.NewDefaultTimeoutConfig())
 
 	if valPubkeys := h.getValPubkeys(); valPubkeys != nil {
-		h.engine.AddNodes(NewNodes(valPubkeys))
+		engine.AddNodes(NewNodes(valPubkeys))
 	}
 
 	log.Info("Adding engine as listener for connection manager....")
-	err := h.engine.Init()
+	err := engine.Init()
 	if err != nil {
 		return err
 	}
-	h.loadPeers(h.engine)
+	h.loadPeers(engine)
+
+	h.setEngine(cm, engine)
+	if h.ready.Load() == true {
+		// Sisu was ready before the private key was set.
+		cm.AddListener(p2p.TSSProtocolID, engine)
+	}
 
 	// Start connection manager.
-	err = h.cm.Start(h.privateKey.Bytes(), h.privateKey.Type())
+	err = cm.Start(privateKey.Bytes(), privateKey.Type())
 	if err != nil {
+		h.setEngine(nil, nil)
 		log.Error("Cannot start connection manager. err =", err)
 		return err
 	} else {
@@ -222,6 +235,28 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 
 // --- End fo Engine callback /
 
+// isReady returns true if Sisu is ready and the private key of this node has been set.
+func (h *Heart) isReady() bool {
+	_, engine := h.getEngine()
+
+	return h.ready.Load() == true && engine != nil
+}
+
+func (h *Heart) getEngine() (p2p.ConnectionManager, Engine) {
+	h.lock.RLock()
+	defer h.lock.RUnlock()
+
+	return h.cm, h.engine
+}
+
+func (h *Heart) setEngine(cm p2p.ConnectionManager, engine Engine) {
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
+	h.cm = cm
+	h.engine = engine
+}
+
 func (h *Heart) getValPubkeys() []ctypes.PubKey {
 	h.lock.RLock()
 	defer h.lock.RUnlock()
@@ -265,10 +300,19 @@ func (h *Heart) popKeysignRequest(workId string) *htypes.KeysignRequest {
 func (h *Heart) SetSisuReady(isReady bool) {
 	log.Info("Sisu ready state = ", isReady)
 
-	h.ready.Store(true)
+	h.ready.Store(isReady)
 
-	// Sisu is ready, we are now ready to process messages from network.
-	h.cm.AddListener(p2p.TSSProtocolID, h.engine) // Add engine to listener
+	cm, engine := h.getEngine()
+	if cm == nil {
+		// The engine is added as a listener when the private key is set.
+		log.Info("The private key has not been set")
+		return
+	}
+
+	if isReady {
+		// Sisu is ready, we are now ready to process messages from network.
+		cm.AddListener(p2p.TSSProtocolID, engine) // Add engine to listener
+	}
 }
 
 // TODO: remove this function
@@ -296,6 +340,9 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 		return err
 	}
 
+	h.privateKeyLock.Lock()
+	defer h.privateKeyLock.Unlock()
+
 	if h.privateKey != nil {
 		if bytes.Compare(decrypted, h.privateKey.Bytes()) != 0 {
 			return fmt.Errorf("The private key has been set!")
@@ -305,25 +352,34 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 		return nil
 	}
 
+	var privateKey ctypes.PrivKey
+	var keySize int
 	switch tendermintKeyType {
 	case "ed25519":
-		h.privateKey = &ed25519.PrivKey{Key: decrypted}
+		privateKey = &ed25519.PrivKey{Key: decrypted}
+		keySize = ed25519.PrivKeySize
 	case "secp256k1":
-		h.privateKey = &secp256k1.PrivKey{Key: decrypted}
+		privateKey = &secp256k1.PrivKey{Key: decrypted}
+		keySize = secp256k1.PrivKeySize
 	default:
 		return fmt.Errorf("Unsupported key type: %s", tendermintKeyType)
 	}
 
-	err = h.initConnectionManager()
+	if len(decrypted) != keySize {
+		return fmt.Errorf("Invalid private key size: %d", len(decrypted))
+	}
+
+	err = h.initConnectionManager(privateKey)
 	if err != nil {
 		return fmt.Errorf("Failed to start heart, err = %v", err)
 	}
+	h.privateKey = privateKey
 
 	return nil
 }
 
 func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey) error {
-	if h.ready.Load() != true {
+	if !h.isReady() {
 		log.Verbose("Heart not ready")
 		return ErrDheartNotReady
 	}
@@ -341,7 +397,8 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 	}
 	sorted := tss.SortPartyIDs(pids)
 
-	h.engine.AddNodes(nodes)
+	_, engine := h.getEngine()
+	engine.AddNodes(nodes)
 
 	var request *types.WorkRequest
 	switch keyType {
@@ -353,7 +410,7 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 		return fmt.Errorf("Unknown key type: %s", keyType)
 	}
 
-	return h.engine.AddRequest(request)
+	return engine.AddRequest(request)
 }
 
 func (h *Heart) getKey(requestType, chain, workdId string) string {
@@ -361,7 +418,7 @@ func (h *Heart) getKey(requestType, chain, workdId string) string {
 }
 
 func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) error {
-	if h.ready.Load() != true {
+	if !h.isReady() {
 		return ErrDheartNotReady
 	}
 
@@ -372,7 +429,8 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		pids[i] = node.PartyId
 	}
 
-	h.engine.AddNodes(nodes)
+	_, engine := h.getEngine()
+	engine.AddNodes(nodes)
 
 	// TODO: Find unique workId
 	workId := ""
@@ -418,7 +476,7 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 	// Save the request first since the work could finish at any time after it is added.
 	added := h.addKeysignRequest(workId, req)
 
-	err := h.engine.AddRequest(workRequest)
+	err := engine.AddRequest(workRequest)
 	if err != nil && added {
 		h.popKeysignRequest(workId)
 	}
@@ -434,7 +492,7 @@ func (h *Heart) BlockEnd(blockHeight int64) error {
 		return nil
 	}
 
-	if h.ready.Load() != true {
+	if !h.isReady() {
 		return ErrDheartNotReady
 	}
 
@@ -470,7 +528,8 @@ func (h *Heart) doPresign(blockHeight int64) {
 		log.Info("Cannot find presign input. Presign cannot be executed until keygen has finished running.")
 	}
 
-	activeWorkerCount := h.engine.GetActiveWorkerCount()
+	_, engine := h.getEngine()
+	activeWorkerCount := engine.GetActiveWorkerCount()
 	log.Verbose("activeWorkerCount = ", activeWorkerCount)
 
 	if activeWorkerCount < MaxWorker {
@@ -479,7 +538,7 @@ func (h *Heart) doPresign(blockHeight int64) {
 		log.Info("Presign workId = ", workId)
 
 		presignRequest := types.NewEcSigningRequest(workId, sorted, utils.GetThreshold(len(sorted)), nil, nil, presignInput)
-		err = h.engine.AddRequest(presignRequest)
+		err = engine.AddRequest(presignRequest)
 		if err != nil {
 			log.Error("Failed to add presign request to engine, err = ", err)
 		}
-- 
2.43.0


From f7c2542a86e32d2fc6b49a0999c304d96d6bfa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 40/55] fix: return an error for requests with invalid public
 keys

---
 core/heart.go     | 15 ++++++++++++++-
 core/node.go      |  5 +++++
 server/tss_api.go | 14 ++++----------
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index afa35d8..a808771 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -182,6 +182,11 @@ func (h *Heart) loadPeers(engine Engine) {
 			continue
 		}
 
+		if NewNode(pubkey) == nil {
+			log.Error("loadPeers: invalid pubkey ", peer.PubKey)
+			continue
+		}
+
 		pubkeys = append(pubkeys, pubkey)
 	}
 	h.setValPubkeys(pubkeys)
@@ -386,9 +391,13 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 
 	// TODO: Check if our pubkey is one of the pubkeys.
 	n := len(tPubKeys)
+	nodes := NewNodes(tPubKeys)
+	if nodes == nil {
+		return fmt.Errorf("Invalid public keys")
+	}
+
 	h.setValPubkeys(tPubKeys)
 
-	nodes := NewNodes(tPubKeys)
 	// For keygen, workId is the same as keygenId
 	workId := keygenId
 	pids := make([]*tss.PartyID, n)
@@ -424,6 +433,10 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 
 	n := len(tPubKeys)
 	nodes := NewNodes(tPubKeys)
+	if nodes == nil {
+		return fmt.Errorf("Invalid public keys")
+	}
+
 	pids := make([]*tss.PartyID, n)
 	for i, node := range nodes {
 		pids[i] = node.PartyId
diff --git a/core/node.go b/core/node.go
index bad9ea0..5c721f9 100644
--- a/core/node.go
+++ b/core/node.go
@@ -46,12 +46,17 @@ func NewNode(pubKey ctypes.PubKey) *Node {
 	}
 }
 
+// NewNodes returns the sorted nodes of the pubkeys or nil if one of them is not a supported pubkey.
 func NewNodes(tPubKeys []ctypes.PubKey) []*Node {
 	nodes := make([]*Node, len(tPubKeys))
 	pids := make([]*tss.PartyID, len(tPubKeys))
 
 	for i, pubKey := range tPubKeys {
 		node := NewNode(pubKey)
+		if node == nil {
+			return nil
+		}
+
 		nodes[i] = node
 		pids[i] = node.PartyId
 	}
diff --git a/server/tss_api.go b/server/tss_api.go
index 17b6e92..81167fb 100644
--- a/server/tss_api.go
+++ b/server/tss_api.go
@@ -44,16 +44,10 @@ func (api *TssApi) KeyGen(keygenId string, chain string, keyWrappers []types.Pub
 
 	log.Infof("keygenId = %s, keyType = %s\n", keygenId, chain)
 
-	pubKeys := make([]ctypes.PubKey, len(keyWrappers))
-
-	for i, wrapper := range keyWrappers {
-		keyType := wrapper.KeyType
-		switch keyType {
-		case "ed25519":
-			pubKeys[i] = &ed25519.PubKey{Key: wrapper.Key}
-		case "secp256k1":
-			pubKeys[i] = &secp256k1.PubKey{Key: wrapper.Key}
-		}
+	pubKeys, err := api.getPubkeysFromWrapper(keyWrappers)
+	if err != nil {
+		log.Error("Failed to get pubkey, err =", err)
+		return err
 	}
 
 	return api.heart.Keygen(keygenId, chain, pubKeys)
-- 
2.43.0


From 19fcbe5e1bf44cb1f685c0a3eeea21d46a3d4978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 41/55] fix: do not crash when a result is posted before Sisu
 is connected

---
 client/client.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/client/client.go b/client/client.go
index 13c48d1..4a5b404 100644
--- a/client/client.go
+++ b/client/client.go
@@ -3,6 +3,7 @@ package client
 import (
 	"context"
 	"errors"
+	"sync"
 	"time"
 
 	"github.com/ethereum/go-ethereum/rpc"
@@ -28,6 +29,7 @@ type Client interface {
 // A client that connects to Sisu server
 type DefaultClient struct {
 	client *rpc.Client
+	lock   sync.RWMutex // protects client
 	url    string
 }
 
@@ -42,9 +44,12 @@ func (c *DefaultClient) TryDial() {
 
 	for {
 		log.Info("Dialing...", c.url)
-		var err error
-		c.client, err = rpc.DialContext(context.Background(), c.url)
+		rpcClient, err := rpc.DialContext(context.Background(), c.url)
 		if err == nil {
+			c.lock.Lock()
+			c.client = rpcClient
+			c.lock.Unlock()
+
 			if err := c.Ping("dheart"); err == nil {
 				break
 			}
@@ -58,9 +63,22 @@ func (c *DefaultClient) TryDial() {
 	log.Info("Sisu server is connected")
 }
 
+// call calls a method of the Sisu server.
+func (c *DefaultClient) call(result interface{}, method string, args ...interface{}) error {
+	c.lock.RLock()
+	rpcClient := c.client
+	c.lock.RUnlock()
+
+	if rpcClient == nil {
+		return ErrSisuServerNotConnected
+	}
+
+	return rpcClient.CallContext(context.Background(), result, method, args...)
+}
+
 func (c *DefaultClient) Ping(source string) error {
 	var result interface{}
-	err := c.client.CallContext(context.Background(), &result, "tss_ping", source)
+	err := c.call(&result, "tss_ping", source)
 	if err != nil {
 		log.Error("Cannot ping sisu, err = ", err)
 		return err
@@ -71,7 +89,7 @@ func (c *DefaultClient) Ping(source string) error {
 
 func (c *DefaultClient) PostKeygenResult(result *types.KeygenResult) error {
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_keygenResult", result)
+	err := c.call(&r, "tss_keygenResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post keygen result, err = ", err)
@@ -88,7 +106,7 @@ func (c *DefaultClient) PostPresignResult(result *types.PresignResult) error {
 	}
 
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_presignResult", result)
+	err := c.call(&r, "tss_presignResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post presign result, err = ", err)
@@ -100,7 +118,7 @@ func (c *DefaultClient) PostPresignResult(result *types.PresignResult) error {
 
 func (c *DefaultClient) PostKeysignResult(result *types.KeysignResult) error {
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_keysignResult", result)
+	err := c.call(&r, "tss_keysignResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post keysign result, err = ", err)
-- 
2.43.0


From 4c10cc3eb738509b9b82e472082b50f78adb3e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 42/55] fix: do not sign without a key or generate a key of an
 unknown type in the single node api

---
 server/single_node_api.go | 51 +++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/server/single_node_api.go b/server/single_node_api.go
index e444eb3..5be2d56 100644
--- a/server/single_node_api.go
+++ b/server/single_node_api.go
@@ -3,6 +3,7 @@ package server
 import (
 	"crypto/ecdsa"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/decred/dcrd/dcrec/edwards/v2"
@@ -24,6 +25,8 @@ type SingleNodeApi struct {
 	keyMap map[string]interface{}
 	c      client.Client
 
+	// Protects the keys, which are generated in another routine.
+	lock      sync.RWMutex
 	ecPrivate *ecdsa.PrivateKey
 	edPrivate *edwards.PrivateKey
 }
@@ -56,6 +59,10 @@ func (api *SingleNodeApi) Version() string {
 func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []types.PubKeyWrapper) error {
 	log.Info("keygen: keyType = ", keyType)
 
+	if keyType != libchain.KEY_TYPE_ECDSA && keyType != libchain.KEY_TYPE_EDDSA {
+		return fmt.Errorf("Unknown key type: %s", keyType)
+	}
+
 	// Add some delay to mock TSS gen delay before sending back to Sisu server
 	go func() {
 		time.Sleep(time.Second * 3)
@@ -64,13 +71,16 @@ func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []typ
 		var result types.KeygenResult
 		switch keyType {
 		case libchain.KEY_TYPE_ECDSA:
-			var err error
-			api.ecPrivate, err = crypto.GenerateKey()
+			ecPrivate, err := crypto.GenerateKey()
 			if err != nil {
 				panic(err)
 			}
 
-			pubKey := api.ecPrivate.Public()
+			api.lock.Lock()
+			api.ecPrivate = ecPrivate
+			api.lock.Unlock()
+
+			pubKey := ecPrivate.Public()
 			publicKeyECDSA, _ := pubKey.(*ecdsa.PublicKey)
 			publicKeyBytes := crypto.FromECDSAPub(publicKeyECDSA)
 
@@ -80,8 +90,16 @@ func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []typ
 				PubKeyBytes: publicKeyBytes,
 			}
 		case libchain.KEY_TYPE_EDDSA:
-			api.edPrivate, _ = edwards.GeneratePrivateKey()
-			pubKeyBytes := api.edPrivate.PubKey().Serialize()
+			edPrivate, err := edwards.GeneratePrivateKey()
+			if err != nil {
+				panic(err)
+			}
+
+			api.lock.Lock()
+			api.edPrivate = edPrivate
+			api.lock.Unlock()
+
+			pubKeyBytes := edPrivate.PubKey().Serialize()
 
 			result = types.KeygenResult{
 				KeyType:     keyType,
@@ -103,15 +121,34 @@ func (api *SingleNodeApi) getKeygenKey(chain string) []byte {
 }
 
 func (api *SingleNodeApi) keySignEth(chain string, bytesToSign []byte) ([]byte, error) {
+	api.lock.RLock()
 	privateKey := api.ecPrivate
+	api.lock.RUnlock()
+
+	if privateKey == nil {
+		return nil, fmt.Errorf("There is no ecdsa key")
+	}
+
 	sig, err := crypto.Sign(bytesToSign, privateKey)
 
 	return sig, err
 }
 
 func (api *SingleNodeApi) keySignEddsa(chain string, bytesToSign []byte) ([]byte, error) {
-	sig, err := api.edPrivate.Sign(bytesToSign)
-	return sig.Serialize(), err
+	api.lock.RLock()
+	privateKey := api.edPrivate
+	api.lock.RUnlock()
+
+	if privateKey == nil {
+		return nil, fmt.Errorf("There is no eddsa key")
+	}
+
+	sig, err := privateKey.Sign(bytesToSign)
+	if err != nil {
+		return nil, err
+	}
+
+	return sig.Serialize(), nil
 }
 
 // Signing any transaction
-- 
2.43.0


From 95b95fa4d336ec53bb591a179a8d72857e8b2507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 43/55] fix: report a failure instead of crashing when a
 signing without a message has finished

---
 core/engine_ecdsa.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/engine_ecdsa.go b/core/engine_ecdsa.go
index 123eb9a..0730541 100644
--- a/core/engine_ecdsa.go
+++ b/core/engine_ecdsa.go
@@ -43,6 +43,13 @@ func (engine *defaultEngine) onEcSigningFinished(request *types.WorkRequest, dat
 
 	signatures := make([][]byte, len(data))
 	for i, sig := range data {
+		if sig == nil || len(sig.SignatureRecovery) == 0 {
+			// This is the case of a nil message: its output (a presign) has no signature.
+			log.Error("There is no signature for the message at index ", i, " workId = ", request.WorkId)
+			engine.callback.OnWorkFailed(request, make([]*tss.PartyID, 0))
+			return
+		}
+
 		bitSizeInBytes := tss.EC(tss.EcdsaScheme).Params().BitSize / 8
 		r := utils.PadToLengthBytesForSignature(data[i].R, bitSizeInBytes)
 		s := utils.PadToLengthBytesForSignature(data[i].S, bitSizeInBytes)
-- 
2.43.0


From 5ddc026c482ec046e619d47c89493c1bf66ecde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 44/55] fix: fail a signing when there is not a presign for
 each of its messages

---
 worker/default_worker.go    | 5 +++++
 worker/prework_selection.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/worker/default_worker.go b/worker/default_worker.go
index 69e88d1..5619505 100644
--- a/worker/default_worker.go
+++ b/worker/default_worker.go
@@ -185,6 +185,11 @@ func (w *DefaultWorker) startEcExecution(result SelectionResult) {
 	var ecSigningPresign []*ecsigning.SignatureData_OneRoundData
 	if w.request.IsSigning() && len(result.PresignIds) > 0 {
 		ecSigningPresign = w.callback.GetPresignOutputs(result.PresignIds)
+		if len(ecSigningPresign) != w.request.BatchSize {
+			log.Error("Cannot load presigns, workId = ", w.workId, " presignIds = ", result.PresignIds)
+			w.callback.OnWorkFailed(w.request)
+			return
+		}
 	}
 
 	// Handle success case
diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 641541f..2ddc04b 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -420,6 +420,11 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 		return false
 	}
 
+	if len(msg.PresignIds) > 0 && len(msg.PresignIds) != s.request.BatchSize {
+		// Every message needs a presign.
+		return false
+	}
+
 	selected := make(map[string]bool)
 	for _, pid := range msg.Pids {
 		partyId := helper.GetPidFromString(pid, s.allParties)
-- 
2.43.0


From 0c0daa7e06708b904cf402ffa06dbc25cfca2f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 45/55] fix: let members wait longer for the selection than the
 leader

---
 core/config/timeout.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/config/timeout.go b/core/config/timeout.go
index 90b2df1..36d4bda 100644
--- a/core/config/timeout.go
+++ b/core/config/timeout.go
@@ -21,7 +21,8 @@ func NewDefaultTimeoutConfig() TimeoutConfig {
 		SigningJobTimeout:      defaultJobTimeout,
 		PresignJobTimeout:      defaultJobTimeout,
 		MonitorMessageTimeout:  time.Second * 15,
-		SelectionLeaderTimeout: selectionLeaderTimeout + time.Second*15,
-		SelectionMemberTimeout: selectionLeaderTimeout,
+		SelectionLeaderTimeout: selectionLeaderTimeout,
+		// A member waits longer than the leader who could need all of its time to select the parties.
+		SelectionMemberTimeout: selectionLeaderTimeout + time.Second*15,
 	}
 }
-- 
2.43.0


From e45c89067ff5a631f38578b4d6644675badbceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 46/55] fix: do not fail a work because of an earlier selection
 without this node

---
 worker/prework_selection.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 2ddc04b..17348c7 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -306,7 +306,9 @@ func (s *PreworkSelection) leaderFinalized(success bool, presignIds []string, se
 func (s *PreworkSelection) doPreExecutionAsMember(leader *tss.PartyID, cachedMsgs []*commonTypes.TssMessage) {
 	// Check in the cache to see if the leader has sent a message to this node regarding the participants.
 	for _, msg := range cachedMsgs {
-		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT && msg.PreExecOutputMessage != nil && msg.From == leader.Id {
+		// A failure is the outcome of an earlier attempt without this node.
+		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT && msg.PreExecOutputMessage != nil &&
+			msg.PreExecOutputMessage.Success && msg.From == leader.Id {
 			log.Verbose("We have received final OUTCOME, work id = ", s.request.WorkId)
 			s.memberFinalized(msg.PreExecOutputMessage)
 			return
-- 
2.43.0


From 97eeabbb083cc99d30f9b583ec2d3a7f19eb5e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 47/55] fix: select the available parties even if a response
 arrives at the end of the wait

---
 worker/prework_selection.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 17348c7..2cde6ba 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -175,16 +175,10 @@ func (s *PreworkSelection) doPreExecutionAsLeader(cachedMsgs []*commonTypes.TssM
 
 func (s *PreworkSelection) waitForMemberResponse() ([]string, []*tss.PartyID, error) {
 	// Wait for everyone to reply or timeout.
-	end := time.Now().Add(s.cfg.SelectionLeaderTimeout)
+	timeout := time.After(s.cfg.SelectionLeaderTimeout)
 	for {
-		now := time.Now()
-		if now.After(end) {
-			break
-		}
-
-		timeDiff := end.Sub(now)
 		select {
-		case <-time.After(timeDiff):
+		case <-timeout:
 			if s.request.IsSigning() && s.availableParties.Length() >= s.request.Threshold+1 {
 				log.Info("Wait timeouted for signing but we got enough participants for presign.")
 				// We have enough online participants but cannot find a presign set for all of them. This
@@ -229,8 +223,6 @@ func (s *PreworkSelection) waitForMemberResponse() ([]string, []*tss.PartyID, er
 			}
 		}
 	}
-
-	return nil, nil, errors.New("cannot find enough members for this work")
 }
 
 // checkEnoughParticipants is a function called by the leader in the election to see if we have
-- 
2.43.0


From 158959af6ac5e7debf64a54913b14a1965129005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:57 +0000
Subject: [PATCH 48/55] fix: write control characters of the config file in a
 form that toml can read

---
 core/config/toml.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/core/config/toml.go b/core/config/toml.go
index 30015d8..2cc6209 100644
--- a/core/config/toml.go
+++ b/core/config/toml.go
@@ -2,7 +2,9 @@ package config
 
 import (
 	"bytes"
+	"encoding/json"
 	"io/ioutil"
+	"strings"
 	"text/template"
 	"time"
 )
@@ -10,30 +12,30 @@ import (
 const defaultConfigTemplate = `# This is a TOML config file.
 # For more information, see https://github.com/toml-lang/toml
 
-home-dir = {{ printf "%q" .HomeDir }}
+home-dir = {{ quote .HomeDir }}
 use-on-memory = {{ .UseOnMemory }}
 shortcut-preparams = {{ .ShortcutPreparams }}
-sisu-server-url = {{ printf "%q" .SisuServerUrl }}
+sisu-server-url = {{ quote .SisuServerUrl }}
 port = {{ .Port }}
 
 ###############################################################################
 ###                        Database Configuration                           ###
 ###############################################################################
 [db]
-	host = {{ printf "%q" .Db.Host }}
+	host = {{ quote .Db.Host }}
 	port = {{ .Db.Port }}
-	username = {{ printf "%q" .Db.Username }}
-	password = {{ printf "%q" .Db.Password }}
-	schema = {{ printf "%q" .Db.Schema }}
+	username = {{ quote .Db.Username }}
+	password = {{ quote .Db.Password }}
+	schema = {{ quote .Db.Schema }}
 [connection]
   host = "0.0.0.0"
   port = 28300
   rendezvous = "rendezvous"
 {{ range .Connection.Peers }}
   [[connection.peers]]
-    address = {{ printf "%q" .Address }}
-    pubkey = {{ printf "%q" .PubKey }}
-    pubkey_type = {{ printf "%q" .PubKeyType }}
+    address = {{ quote .Address }}
+    pubkey = {{ quote .PubKey }}
+    pubkey_type = {{ quote .PubKeyType }}
 {{ end }}`
 
 var configTemplate *template.Template
@@ -41,13 +43,24 @@ var configTemplate *template.Template
 func init() {
 	var err error
 
-	tmpl := template.New("dheartConfigTemplate")
+	tmpl := template.New("dheartConfigTemplate").Funcs(template.FuncMap{"quote": quote})
 
 	if configTemplate, err = tmpl.Parse(defaultConfigTemplate); err != nil {
 		panic(err)
 	}
 }
 
+// quote returns a TOML string. Its escape sequences are those of JSON, except that TOML does not allow
+// a literal DEL character.
+func quote(s string) (string, error) {
+	bz, err := json.Marshal(s)
+	if err != nil {
+		return "", err
+	}
+
+	return strings.ReplaceAll(string(bz), "\x7f", `\u007f`), nil
+}
+
 func WriteConfigFile(configFilePath string, config HeartConfig) {
 	var buffer bytes.Buffer
 
-- 
2.43.0


From 088febbdd5cfcfe8dc5ceb81999853a759f21a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:44 +0000
Subject: [PATCH 49/55] fix: extract the keys of messages whose work id ends
 with a part of the separator

---
 types/common/tss_message.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index d1ee13c..0728612 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -115,16 +115,24 @@ func GetMessageKey(workdId, from, to, tssMsgType string) string {
 
 // ExtractMessageKey returns workId, from, to, tssMsgType
 func ExtractMessageKey(msgKey string) ([]string, error) {
-	keys := strings.Split(msgKey, "__")
-	if len(keys) < 4 {
-		err := fmt.Errorf("not enough keys. msgKey = %s", msgKey)
-		log.Error(err)
-		return nil, err
+	// The work id is the only part that could contain the separator or end with a part of it. Take the
+	// other parts from the end.
+	keys := make([]string, 4)
+	rest := msgKey
+	for i := len(keys) - 1; i > 0; i-- {
+		index := strings.LastIndex(rest, "__")
+		if index < 0 {
+			err := fmt.Errorf("not enough keys. msgKey = %s", msgKey)
+			log.Error(err)
+			return nil, err
+		}
+
+		keys[i] = rest[index+len("__"):]
+		rest = rest[:index]
 	}
+	keys[0] = rest
 
-	// The work id is the only part that could contain the separator.
-	n := len(keys) - 3
-	return append([]string{strings.Join(keys[:n], "__")}, keys[n:]...), nil
+	return keys, nil
 }
 
 func GetPreworkSelectionMsgType() map[TssMessage_Type]bool {
-- 
2.43.0


From ae1baad6df8b22470613374c3027397fc877601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 50/55] fix: write the replacement character of the config file
 in a form that toml can read

---
 core/config/toml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/config/toml.go b/core/config/toml.go
index 2cc6209..c4d25dd 100644
--- a/core/config/toml.go
+++ b/core/config/toml.go
@@ -51,14 +51,14 @@ func init() {
 }
 
 // quote returns a TOML string. Its escape sequences are those of JSON, except that TOML does not allow
-// a literal DEL character.
+// a literal DEL character and that the parser takes a literal replacement character for invalid UTF-8.
 func quote(s string) (string, error) {
 	bz, err := json.Marshal(s)
 	if err != nil {
 		return "", err
 	}
 
-	return strings.ReplaceAll(string(bz), "\x7f", `\u007f`), nil
+	return strings.NewReplacer("\x7f", `\u007f`, "\ufffd", `\ufffd`).Replace(string(bz)), nil
 }
 
 func WriteConfigFile(configFilePath string, config HeartConfig) {
-- 
2.43.0


From ecaac8f42c2869865ee6402f1cb025943fd62bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 51/55] fix: refuse requests without parties, with parties that
 hold no share or with empty ECDSA messages

---
 worker/types/work_request.go | 48 ++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/worker/types/work_request.go b/worker/types/work_request.go
index 7f4bff3..37781d6 100644
--- a/worker/types/work_request.go
+++ b/worker/types/work_request.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"errors"
+	"math/big"
 
 	"github.com/sisu-network/lib/log"
 	"github.com/sisu-network/tss-lib/ecdsa/keygen"
@@ -101,6 +102,10 @@ func (request *WorkRequest) Validate() error {
 		return errors.New("Invalid request type")
 	}
 
+	if len(request.AllParties) == 0 || request.Threshold < 0 {
+		return errors.New("There are not enough parties in this request")
+	}
+
 	if request.IsSigning() {
 		if request.WorkType == EcSigning && request.EcSigningInput == nil ||
 			request.WorkType == EdSigning && request.EdSigningInput == nil {
@@ -110,11 +115,54 @@ func (request *WorkRequest) Validate() error {
 		if len(request.Messages) == 0 || len(request.Chains) == 0 {
 			return errors.New("There is no message in this signing request")
 		}
+
+		if !request.allPartiesHaveShares() {
+			return errors.New("A party of this signing request did not take part in the keygen")
+		}
+
+		for _, msg := range request.Messages {
+			if request.WorkType == EcSigning && msg != nil && isZeroHash(msg) {
+				return errors.New("There is an empty message in this signing request")
+			}
+		}
 	}
 
 	return nil
 }
 
+// allPartiesHaveShares returns true if each party is one of the parties of the keygen output.
+func (request *WorkRequest) allPartiesHaveShares() bool {
+	var keys []*big.Int
+	if request.WorkType == EcSigning {
+		keys = request.EcSigningInput.Ks
+	} else {
+		keys = request.EdSigningInput.Ks
+	}
+
+	hasShare := make(map[string]bool)
+	for _, key := range keys {
+		hasShare[key.String()] = true
+	}
+
+	for _, party := range request.AllParties {
+		if !hasShare[party.KeyInt().String()] {
+			return false
+		}
+	}
+
+	return true
+}
+
+// isZeroHash returns true if an ECDSA message is empty or all of its significant bytes are zero. The
+// signing protocol has no signature of such a message.
+func isZeroHash(msg []byte) bool {
+	if len(msg) > 32 {
+		msg = msg[:32]
+	}
+
+	return new(big.Int).SetBytes(msg).Sign() == 0
+}
+
 // GetMinPartyCount returns the minimum number of parties needed to do this job.
 func (request *WorkRequest) GetMinPartyCount() int {
 	if request.IsKeygen() {
-- 
2.43.0


From 06e38e0c39975e75cb07ea7b69c0a86a60216ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 52/55] fix: fail the work, not the node, on protocol messages
 whose content makes tss-lib panic

---
 worker/helper/content.go     | 32 ++++++++++++++++++++++++++++++++
 worker/helper/tss_updater.go | 13 ++++++++++++-
 worker/worker_executor.go    |  4 ++++
 3 files changed, 48 insertions(+), 1 deletion(-)
 create mode 100644 worker/helper/content.go

diff --git a/worker/helper/content.go b/worker/helper/content.go
new file mode 100644
index 0000000..049061f
--- /dev/null
+++ b/worker/helper/content.go
@@ -0,0 +1,32 @@
+package helper
+
+import (
+	"fmt"
+
+	eckeygen "github.com/sisu-network/tss-lib/ecdsa/keygen"
+	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
+	"github.com/sisu-network/tss-lib/tss"
+)
+
+// ValidateContent checks the parts of a message that tss-lib uses without checking them first (in go
+// routines of its own, where a panic cannot be recovered).
+func ValidateContent(content tss.MessageContent, threshold int) error {
+	switch m := content.(type) {
+	case *eckeygen.KGRound2Message2:
+		return validateVssDeCommitment(m.GetDeCommitment(), threshold)
+	case *edkeygen.KGRound2Message2:
+		return validateVssDeCommitment(m.GetDeCommitment(), threshold)
+	}
+
+	return nil
+}
+
+// A keygen decommitment has the commitment randomness and the two coordinates of threshold + 1 points.
+func validateVssDeCommitment(parts [][]byte, threshold int) error {
+	expected := 1 + 2*(threshold+1)
+	if len(parts) != expected {
+		return fmt.Errorf("expect %d decommitment values, got %d", expected, len(parts))
+	}
+
+	return nil
+}
diff --git a/worker/helper/tss_updater.go b/worker/helper/tss_updater.go
index 6ddff6b..3bef20f 100644
--- a/worker/helper/tss_updater.go
+++ b/worker/helper/tss_updater.go
@@ -1,11 +1,22 @@
 package helper
 
 import (
+	"fmt"
+
 	"github.com/sisu-network/lib/log"
 	"github.com/sisu-network/tss-lib/tss"
 )
 
-func SharedPartyUpdater(party tss.Party, msg tss.Message) *tss.Error {
+func SharedPartyUpdater(party tss.Party, msg tss.Message) (updateErr *tss.Error) {
+	// The content of the message comes from another party: tss-lib panics on some values that no
+	// honest party sends. This must only fail the work that the message belongs to.
+	defer func() {
+		if r := recover(); r != nil {
+			log.Error("panic when updating party with message ", msg.Type(), ": ", r)
+			updateErr = party.WrapError(fmt.Errorf("cannot update party: %v", r), msg.GetFrom())
+		}
+	}()
+
 	// Do not send a message from this party back to itself
 	if party.PartyID() == msg.GetFrom() {
 		return nil
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index c6523cd..7468615 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -369,6 +369,10 @@ func (w *WorkerExecutor) ProcessUpdateMessage(tssMsg *commonTypes.TssMessage) er
 			return fmt.Errorf("error when parsing wire message %w", err)
 		}
 
+		if err := helper.ValidateContent(msg.Content(), w.request.Threshold); err != nil {
+			return fmt.Errorf("invalid message content %w", err)
+		}
+
 		msgRouting := tss.MessageRouting{}
 		if err := json.Unmarshal(updateMessage.SerializedMessageRouting, &msgRouting); err != nil {
 			return fmt.Errorf("error when unmarshal message routing %w", err)
-- 
2.43.0


From e69ced2135a91053c2b1d7219fe97115eae2fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 53/55] fix: release an incoming stream when reading from it
 fails

---
 p2p/connection_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 5d61587..80b90a5 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -176,6 +176,9 @@ func (cm *DefaultConnectionManager) handleStream(stream network.Stream) {
 		if err != nil {
 			log.Warn(err)
 			// TODO: handle retry here.
+
+			// Release the stream: the number of streams a peer can have open on a connection is limited.
+			stream.Reset()
 			return
 		}
 		if dataBuf != nil {
-- 
2.43.0


From 5aead86465b54c5d491a4cde5d758627d52cf4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 54/55] fix: report errors that end the iteration over the rows
 of a query

When the connection to the database breaks in the middle of a result, Next returns false. What was
stored looked as if it did not exist: key shares and pre-parameters were reported as missing and the
list of unused presigns was incomplete, without an error.
---
 db/database.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/db/database.go b/db/database.go
index 190d538..f7c00e4 100644
--- a/db/database.go
+++ b/db/database.go
@@ -270,6 +270,10 @@ func (d *SqlDatabase) LoadPreparams() (*eckeygen.LocalPreParams, error) {
 	defer rows.Close()
 
 	if !rows.Next() {
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
+
 		return nil, ErrNotFound
 	}
 
@@ -317,6 +321,8 @@ func (d *SqlDatabase) LoadEcKeygen(keyType string) (*eckeygen.LocalPartySaveData
 			log.Error("Cannot unmarshal result", err)
 			return nil, err
 		}
+	} else if err := rows.Err(); err != nil {
+		return nil, err
 	} else {
 		log.Verbose("There is no such keygen output for ", keyType)
 		return nil, nil
@@ -354,6 +360,8 @@ func (d *SqlDatabase) LoadEdKeygen(keyType string) (*edkeygen.LocalPartySaveData
 			log.Error("Cannot unmarshal result", err)
 			return nil, err
 		}
+	} else if err := rows.Err(); err != nil {
+		return nil, err
 	} else {
 		log.Verbose("There is no such keygen output for ", keyType)
 		return nil, nil
@@ -434,6 +442,10 @@ func (d *SqlDatabase) GetAvailablePresignShortForm() ([]string, []string, error)
 		pids = append(pids, pid)
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, nil, err
+	}
+
 	return presignIds, pids, nil
 }
 
@@ -486,6 +498,10 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 		loaded[presignId] = &data
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	// 3. Return the data in the same order as the ids.
 	results := make([]*ecsigning.SignatureData_OneRoundData, len(presignIds))
 	for i, presignId := range presignIds {
@@ -526,6 +542,10 @@ func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 		loaded[presignId] = status
 	}
 
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
 	// 3. Return the statuses in the same order as the ids.
 	results := make([]string, len(presignIds))
 	for i, presignId := range presignIds {
-- 
2.43.0


From e790f2a7fd66e7a96835c9dcdfb26b500a2aa108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:29 +0000
Subject: [PATCH 55/55] fix: send a message on a new stream when the old one
 was reset

A node that talked to a peer before the peer restarted kept the stream of the old connection. The first
message to the restarted peer was lost in it, and with it the selection of the next work.
---
 p2p/connection.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/p2p/connection.go b/p2p/connection.go
index 2b76886..a32b6e0 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -2,7 +2,9 @@ package p2p
 
 import (
 	"context"
+	"errors"
 	"fmt"
+	"net"
 	"sync"
 
 	"github.com/libp2p/go-libp2p/core/host"
@@ -66,16 +68,27 @@ func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
 	con.lock.Lock()
 	defer con.lock.Unlock()
 
-	stream := con.streams[protocolId]
-	if stream == nil {
-		var err error
-		stream, err = con.createStream(protocolId)
-		if err != nil {
-			log.Warnf("Cannot create a new stream, err = %v", err)
+	if stream := con.streams[protocolId]; stream != nil {
+		err := con.write(msg, stream, protocolId)
+		if err == nil || isTimeout(err) {
 			return err
 		}
+
+		// The stream was opened earlier and has been reset since then, e.g. because the peer restarted. It has not
+		// got the whole message. Send it on a new stream.
+	}
+
+	stream, err := con.createStream(protocolId)
+	if err != nil {
+		log.Warnf("Cannot create a new stream, err = %v", err)
+		return err
 	}
 
+	return con.write(msg, stream, protocolId)
+}
+
+// write writes a message to a stream. The caller must hold the lock.
+func (con *Connection) write(msg []byte, stream network.Stream, protocolId protocol.ID) error {
 	if err := WriteStreamWithBuffer(msg, stream); err != nil {
 		// This stream is broken. Open a new one for the next message.
 		stream.Reset()
@@ -85,3 +98,8 @@ func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
 
 	return nil
 }
+
+func isTimeout(err error) bool {
+	var netErr net.Error
+	return errors.As(err, &netErr) && netErr.Timeout()
+}
-- 
2.43.0

