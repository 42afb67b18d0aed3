From d8ba45555c98daefba5b1aff1aa2f35edf40a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 01/32] fix: accept a wrapped ErrEntityNotRegister while taking
 snapshots

---
 engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index ed20575..2907826 100644
--- a/engine.go
+++ b/engine.go
@@ -856,7 +856,7 @@ func (e *Stage) updateSnapshot() error {
 		}
 
 		po, err := e.executor.Entity2Model(entity, parent, OpQuery)
-		if err != nil && !errors.Is(ErrEntityNotRegister, err) {
+		if err != nil && !errors.Is(err, ErrEntityNotRegister) {
 			return err
 		}
 		e.snapshot[entity] = &entitySnapshot{
-- 
2.43.0


From 62e58b7e12f7fc5d2a9aab205b40d4092920402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 02/32] fix: loading or removing a root no longer forgets
 unsaved changes of others

---
 engine.go | 55 ++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/engine.go b/engine.go
index 2907826..fc64bb3 100644
--- a/engine.go
+++ b/engine.go
@@ -56,6 +56,9 @@ func (d *defaultIDGenerator) NewID() (string, error) {
 	return guid.String(), nil
 }
 
+// metaKey 聚合根实体在 EntityContainer 的 key
+const metaKey = "meta"
+
 // EntityContainer 负责维护领域内所有聚合根实体的实体
 type EntityContainer struct {
 	BaseEntity
@@ -65,7 +68,7 @@ type EntityContainer struct {
 }
 
 func (w *EntityContainer) GetChildren() map[string][]IEntity {
-	return map[string][]IEntity{"meta": w.roots}
+	return map[string][]IEntity{metaKey: w.roots}
 }
 
 func (w *EntityContainer) Has(root IEntity) bool {
@@ -210,7 +213,7 @@ func (r *Repository) Get(ctx context.Context, root IEntity, children ...interfac
 	if err := r.stage.meta.Add(root); err != nil {
 		return err
 	}
-	return r.stage.updateSnapshot()
+	return r.stage.updateSnapshot(root)
 }
 
 // CustomGet 自定义函数获取聚合根实体，并添加到快照
@@ -226,7 +229,7 @@ func (r *Repository) CustomGet(ctx context.Context, getter func(ctx context.Cont
 		}
 	}
 
-	return r.stage.updateSnapshot()
+	return r.stage.updateSnapshot(roots...)
 }
 
 // Add 添加聚合根到仓库
@@ -253,7 +256,7 @@ func (r *Repository) Remove(roots ...IEntity) {
 	}
 	if len(toCreate) > 0 {
 		r.Add(toCreate...)
-		if err := r.stage.updateSnapshot(); err != nil {
+		if err := r.stage.updateSnapshot(toCreate...); err != nil {
 			r.appendError(err)
 			return
 		}
@@ -845,26 +848,40 @@ func childrenSnapshot(children map[string][]IEntity) map[string][]IEntity {
 
 func (e *Stage) flush() error {
 	e.snapshot = entitySnapshotPool{}
-	return e.updateSnapshot()
+	return walk(e.meta, nil, e.takeSnapshot)
 }
 
-// 更新快照，已有的不覆盖
-func (e *Stage) updateSnapshot() error {
-	return walk(e.meta, nil, func(entity, parent IEntity, children map[string][]IEntity) error {
-		if _, in := e.snapshot[entity]; in && entity != e.meta {
-			return nil
-		}
+// 记录单个实体的快照，已有的不覆盖
+func (e *Stage) takeSnapshot(entity, parent IEntity, children map[string][]IEntity) error {
+	if _, in := e.snapshot[entity]; in {
+		return nil
+	}
 
-		po, err := e.executor.Entity2Model(entity, parent, OpQuery)
-		if err != nil && !errors.Is(err, ErrEntityNotRegister) {
+	po, err := e.executor.Entity2Model(entity, parent, OpQuery)
+	if err != nil && !errors.Is(err, ErrEntityNotRegister) {
+		return err
+	}
+	e.snapshot[entity] = &entitySnapshot{
+		po:       po,
+		children: childrenSnapshot(children),
+	}
+	return nil
+}
+
+// 更新快照，只记录新载入的聚合根，其他实体未保存的变更（如新增、删除）不能进入快照，否则会丢失
+func (e *Stage) updateSnapshot(loaded ...IEntity) error {
+	meta, in := e.snapshot[e.meta]
+	if !in {
+		meta = &entitySnapshot{children: map[string][]IEntity{}}
+		e.snapshot[e.meta] = meta
+	}
+	for _, root := range loaded {
+		if err := walk(root, e.meta, e.takeSnapshot); err != nil {
 			return err
 		}
-		e.snapshot[entity] = &entitySnapshot{
-			po:       po,
-			children: childrenSnapshot(children),
-		}
-		return nil
-	})
+		meta.children[metaKey] = append(meta.children[metaKey], root)
+	}
+	return nil
 }
 
 func (e *Stage) hasSnapshot(target IEntity) bool {
-- 
2.43.0


From 4eda49884f76cd7cf1be2b36c9e5d6003d1f7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 03/32] fix: report misuse of the root container instead of
 dropping it

---
 engine.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/engine.go b/engine.go
index fc64bb3..c210fb6 100644
--- a/engine.go
+++ b/engine.go
@@ -167,20 +167,20 @@ func (h DomainBuilder) Build(ctx context.Context, parent IEntity, children ...in
 // RootContainer 聚合根实体容器
 type RootContainer struct {
 	stage *Stage
-	errs  []error
+	errs  *[]error // Act 以值的方式接收 RootContainer，需要用指针共享错误
 }
 
 // Add 创建聚合根实体
 func (h *RootContainer) Add(root IEntity) {
 	if err := h.stage.meta.Add(root); err != nil {
-		h.errs = append(h.errs, err)
+		*h.errs = append(*h.errs, err)
 	}
 }
 
 // Remove 删除聚合根实体
 func (h *RootContainer) Remove(root IEntity) {
 	if err := h.stage.meta.Remove(root); err != nil {
-		h.errs = append(h.errs, err)
+		*h.errs = append(*h.errs, err)
 	}
 }
 
@@ -795,11 +795,11 @@ func (e *Stage) runCommand(ctx context.Context, c ICommand) *Result {
 			return err
 		}
 
-		container := RootContainer{stage: repo.stage}
+		container := RootContainer{stage: repo.stage, errs: &[]error{}}
 		if err := c.Act(ctx, container, buildRoots...); err != nil {
 			return err
-		} else if len(container.errs) > 0 {
-			return ErrList(container.errs)
+		} else if len(*container.errs) > 0 {
+			return ErrList(*container.errs)
 		}
 		return nil
 	}).Save(ctx)
-- 
2.43.0


From a4c60e5d14c3a8f413930d3ca0b276a6d08a0f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 04/32] fix: delete the children of a key GetChildren no longer
 reports

---
 snapshot.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/snapshot.go b/snapshot.go
index b32d016..39d85b2 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -213,6 +213,14 @@ func entityDiff(parent IEntity, pool entitySnapshotPool) []*entityChanged {
 	for key := range childrenList {
 		keys = append(keys, key)
 	}
+	// 快照里有而当前没有的 key，即该 key 下的子实体都被移除
+	if pool[parent] != nil {
+		for key := range pool[parent].children {
+			if _, in := childrenList[key]; !in {
+				keys = append(keys, key)
+			}
+		}
+	}
 	sort.Strings(keys)
 	for _, key := range keys {
 		children := childrenList[key]
-- 
2.43.0


From 130ec7cdbc689cac70d131464093282a3316d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 05/32] fix: notice children that left a parent deleted in the
 same save

---
 engine.go   |  2 ++
 snapshot.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/engine.go b/engine.go
index c210fb6..b5f8884 100644
--- a/engine.go
+++ b/engine.go
@@ -898,6 +898,8 @@ func (e *Stage) unDirty() {
 
 func (e *Stage) getEntityChanged() ([]*entityChanged, error) {
 	changed := entityDiff(e.meta, e.snapshot)
+	// 处理从被删除的实体中移除的子实体
+	changed = append(changed, detachedDiff(e.meta, changed, e.snapshot)...)
 	// 处理实体移动的场景
 	changed, err := handleEntityMove(changed)
 	if err != nil {
diff --git a/snapshot.go b/snapshot.go
index 39d85b2..67bdc49 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -275,6 +275,58 @@ func entityDiff(parent IEntity, pool entitySnapshotPool) []*entityChanged {
 	return res
 }
 
+// detachedDiff 收集被删除的实体之下，被移除的子实体，这些子实体可能移动到了其他父实体下
+func detachedDiff(root IEntity, changed []*entityChanged, pool entitySnapshotPool) []*entityChanged {
+	visited := map[IEntity]bool{}
+	_ = walk(root, nil, func(entity, parent IEntity, children map[string][]IEntity) error {
+		visited[entity] = true
+		return nil
+	})
+
+	res := make([]*entityChanged, 0)
+	var visit func(entity IEntity)
+	visit = func(entity IEntity) {
+		if visited[entity] || pool[entity] == nil {
+			return
+		}
+		visited[entity] = true
+
+		current := simpleSet{}
+		for _, children := range findChildren(entity) {
+			for _, c := range children {
+				current[c] = 0
+			}
+		}
+		keys := []string{}
+		for key := range pool[entity].children {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+		for _, key := range keys {
+			prev := makeEntitySet(pool[entity].children[key])
+			if deleted := prev.Diff(current).ToSlice(); len(deleted) > 0 {
+				res = append(res, &entityChanged{
+					changeType: deleteChildren,
+					parent:     entity,
+					key:        key,
+					children:   deleted,
+				})
+			}
+			for _, item := range pool[entity].children[key] {
+				visit(item)
+			}
+		}
+	}
+	for _, item := range changed {
+		if item.changeType == deleteChildren {
+			for _, entity := range item.children {
+				visit(entity)
+			}
+		}
+	}
+	return res
+}
+
 func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 	// 按照 new, dirty, delete 的顺序排序
 	sort.SliceStable(changedItems, func(i, j int) bool {
-- 
2.43.0


From 2d3dd0fc629a0558a09a031b763a52c22133a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 06/32] fix: recursive deletion deletes each stored entity once
 and skips unsaved ones

---
 engine.go   |  2 +-
 snapshot.go | 24 ++++++++++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/engine.go b/engine.go
index b5f8884..a3afdca 100644
--- a/engine.go
+++ b/engine.go
@@ -907,7 +907,7 @@ func (e *Stage) getEntityChanged() ([]*entityChanged, error) {
 	}
 	// 处理递归删除子实体
 	if e.options.RecursiveDelete {
-		changed = recursiveDelete(changed)
+		changed = recursiveDelete(changed, e.snapshot)
 	}
 	return changed, nil
 }
diff --git a/snapshot.go b/snapshot.go
index 67bdc49..8a93fb7 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -362,17 +362,37 @@ func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 	return changedItems, nil
 }
 
-func recursiveDelete(changed []*entityChanged) []*entityChanged {
+func recursiveDelete(changed []*entityChanged, pool entitySnapshotPool) []*entityChanged {
+	// 每个实体只删除一次
+	deleted := map[IEntity]bool{}
+	for _, item := range changed {
+		if item.changeType == deleteChildren {
+			for _, c := range item.children {
+				deleted[c] = true
+			}
+		}
+	}
 	for _, item := range changed {
 		if item.changeType == deleteChildren {
 			for _, c := range item.children {
 				if err := walk(c, item.parent, func(entity, parent IEntity, children map[string][]IEntity) error {
 					for key, entities := range children {
+						toDelete := make([]IEntity, 0)
+						for _, child := range entities {
+							// 没有快照的实体尚未保存，不需要删除
+							if !deleted[child] && pool[child] != nil {
+								deleted[child] = true
+								toDelete = append(toDelete, child)
+							}
+						}
+						if len(toDelete) == 0 {
+							continue
+						}
 						changed = append(changed, &entityChanged{
 							changeType: deleteChildren,
 							parent:     entity,
 							key:        key,
-							children:   entities,
+							children:   toDelete,
 						})
 					}
 					return nil
-- 
2.43.0


From 2f20afce5c5f889eaaabcae4be9747b3c722ab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 07/32] fix: moving several siblings in one save

---
 snapshot.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snapshot.go b/snapshot.go
index 8a93fb7..ab71940 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -335,7 +335,10 @@ func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 
 	entities := map[IEntity]*entityChanged{}
 	for _, item := range changedItems {
-		for _, entity := range item.children {
+		// Remove 会原地修改 item.children，这里遍历拷贝
+		children := make([]IEntity, len(item.children))
+		copy(children, item.children)
+		for _, entity := range children {
 			prev, ok := entities[entity]
 			if !ok {
 				entities[entity] = item
-- 
2.43.0


From d31ca6f255349f50a307b9f9030b8d3f79d33903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 08/32] fix: do not share the post-save hooks between runs of
 an engine

---
 engine.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index a3afdca..93772c4 100644
--- a/engine.go
+++ b/engine.go
@@ -420,7 +420,10 @@ func WithIDGenerator(idGen IIDGenerator) IDGeneratorOption {
 type PostSaveOption PostSaveFunc
 
 func (t PostSaveOption) ApplyToOptions(opts *Options) {
-	opts.PostSaveHooks = append(opts.PostSaveHooks, PostSaveFunc(t))
+	// Options 在 Engine 和 Stage 之间是浅拷贝，必须生成新的 slice，避免并发的 Stage 互相覆盖
+	hooks := make([]PostSaveFunc, len(opts.PostSaveHooks), len(opts.PostSaveHooks)+1)
+	copy(hooks, opts.PostSaveHooks)
+	opts.PostSaveHooks = append(hooks, PostSaveFunc(t))
 }
 
 func WithPostSave(f PostSaveFunc) PostSaveOption {
-- 
2.43.0


From e72affc785090dc9942c6eb8156892b0bf54afd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 09/32] fix: accept every transaction checker result type that
 registration accepts

---
 event.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event.go b/event.go
index 6624c12..7da65b2 100644
--- a/event.go
+++ b/event.go
@@ -211,7 +211,7 @@ func onTXChecker(evt *DomainEvent) TXStatus {
 	}
 
 	outs := checker.f.Call([]reflect.Value{bizEvt})
-	return outs[0].Interface().(TXStatus)
+	return outs[0].Convert(txStatusType).Interface().(TXStatus)
 }
 
 type IEvent interface {
-- 
2.43.0


From 4a43ac79091f3c69e693884f3d417a5d8cb18ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 10/32] fix: the in-memory bus worker ends with its context

---
 eventbus/mem/eventbus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eventbus/mem/eventbus.go b/eventbus/mem/eventbus.go
index 5e75442..8075756 100644
--- a/eventbus/mem/eventbus.go
+++ b/eventbus/mem/eventbus.go
@@ -53,7 +53,7 @@ func (e *MemoryEventBus) Start(ctx context.Context) {
 			case evt := <-e.ch:
 				_ = e.cb(ctx, evt)
 			case <-ctx.Done():
-				break
+				return
 			}
 		}
 	}
-- 
2.43.0


From e683f88f484edc382a1a8be400bd9c07f109a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 11/32] fix: update exactly the columns whose values differ

Embedded structs with equal field names are told apart by column, and custom
value types made of unexported parts are compared as a whole.
---
 executor/mysql/diff.go     | 75 ++++++++++++++++++++++++++++----------
 executor/mysql/executor.go |  6 ++-
 2 files changed, 61 insertions(+), 20 deletions(-)

diff --git a/executor/mysql/diff.go b/executor/mysql/diff.go
index e93aecc..09118cc 100644
--- a/executor/mysql/diff.go
+++ b/executor/mysql/diff.go
@@ -19,6 +19,8 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+
+	"gorm.io/gorm/schema"
 )
 
 var schemaCache = &sync.Map{}
@@ -33,7 +35,7 @@ func hasValue(tag, attr string) bool {
 	return false
 }
 
-func diffValue(a, b reflect.Value) (fields []string, diff bool) {
+func diffValue(a, b reflect.Value) (diff bool) {
 	if a.Kind() == reflect.Pointer && b.Kind() == reflect.Pointer {
 		if a.IsNil() && !b.IsNil() {
 			diff = true // a 为 nil，b 不为 nil
@@ -60,9 +62,9 @@ func diffValue(a, b reflect.Value) (fields []string, diff bool) {
 		return
 	}
 	switch {
-	case a.Kind() == reflect.Struct:
-		fields = diffStruct(a, b)
-		diff = len(fields) > 0
+	case a.Kind() == reflect.Struct && a.CanInterface() && b.CanInterface():
+		// 整个 struct 对应一个字段，其中可能有无法逐个比较的非导出成员
+		diff = !reflect.DeepEqual(a.Interface(), b.Interface())
 	case a.Comparable() && b.Comparable():
 		diff = !a.Equal(b)
 	case a.CanInterface() && b.CanInterface():
@@ -73,27 +75,33 @@ func diffValue(a, b reflect.Value) (fields []string, diff bool) {
 	return
 }
 
-func diffStruct(currVal, prevVal reflect.Value) []string {
-	result := make([]string, 0)
+// diffStruct 返回有差异的字段路径，嵌套 struct 里的字段路径从外层字段名开始
+func diffStruct(currVal, prevVal reflect.Value, parent ...string) [][]string {
+	result := make([][]string, 0)
 	poType := currVal.Type()
 	for i := 0; i < currVal.NumField(); i++ {
 		field := poType.Field(i)
 		fieldVal := currVal.Field(i)
 		prevFiledVal := prevVal.Field(i)
-		fieldName := field.Name
-		fieldTag := field.Tag.Get("gorm")
-		if reflect.Indirect(fieldVal).Kind() == reflect.Struct {
-			if structDiff, diff := diffValue(fieldVal, prevFiledVal); diff {
-				if field.Anonymous || hasValue(fieldTag, "embedded") {
-					result = append(result, structDiff...)
-				} else {
-					result = append(result, fieldName)
-				}
+		path := append(parent[:len(parent):len(parent)], field.Name)
+		if !diffValue(fieldVal, prevFiledVal) {
+			continue
+		}
+		structType := field.Type
+		if structType.Kind() == reflect.Pointer {
+			structType = structType.Elem()
+		}
+		if structType.Kind() == reflect.Struct && (field.Anonymous || hasValue(field.Tag.Get("gorm"), "embedded")) {
+			curr, prev := reflect.Indirect(fieldVal), reflect.Indirect(prevFiledVal)
+			if !curr.IsValid() {
+				curr = reflect.Zero(structType)
 			}
-		} else {
-			if _, diff := diffValue(fieldVal, prevFiledVal); diff {
-				result = append(result, fieldName)
+			if !prev.IsValid() {
+				prev = reflect.Zero(structType)
 			}
+			result = append(result, diffStruct(curr, prev, path...)...)
+		} else {
+			result = append(result, path)
 		}
 	}
 	return result
@@ -106,5 +114,34 @@ func DiffModel(curr, prev interface{}) []string {
 	if currVal.Kind() != reflect.Struct || prevVal.Kind() != reflect.Struct {
 		return nil
 	}
-	return diffStruct(currVal, prevVal)
+	fields := make([]string, 0)
+	for _, path := range diffStruct(currVal, prevVal) {
+		fields = append(fields, path[len(path)-1])
+	}
+	return fields
+}
+
+// diffColumns 模型差异对比，返回有差异的字段对应的列名，不同的嵌套 struct 可能有相同的字段名，不能只用字段名更新
+func diffColumns(s *schema.Schema, curr, prev interface{}) []string {
+	columns := map[string]string{}
+	for _, f := range s.Fields {
+		columns[strings.Join(f.BindNames, ".")] = f.DBName
+	}
+
+	currVal, prevVal := reflect.Indirect(reflect.ValueOf(curr)), reflect.Indirect(reflect.ValueOf(prev))
+	if currVal.Kind() != reflect.Struct || prevVal.Kind() != reflect.Struct {
+		return nil
+	}
+	fields := make([]string, 0)
+	for _, path := range diffStruct(currVal, prevVal) {
+		field := path[len(path)-1]
+		for n := len(path); n > 0; n-- {
+			if column := columns[strings.Join(path[:n], ".")]; column != "" {
+				field = column
+				break
+			}
+		}
+		fields = append(fields, field)
+	}
+	return fields
 }
diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index 8c8a3e2..a9d8926 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -87,7 +87,11 @@ var opMap = map[ddd.OpType]execFunc{
 	ddd.OpUpdate: func(db *gorm.DB, a *ddd.Action) error {
 		for i, m := range a.Models {
 			if len(a.PrevModels) > i {
-				fields := DiffModel(m, a.PrevModels[i])
+				s, err := schema.Parse(m, schemaCache, db.NamingStrategy)
+				if err != nil {
+					return err
+				}
+				fields := diffColumns(s, m, a.PrevModels[i])
 				if len(fields) == 0 {
 					continue
 				}
-- 
2.43.0


From 4d926bf5d17f049345acf05bda0996e2b2207cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 12/32] fix: address rows by their whole composite key

gorm leaves zero key parts out of the condition, which hit other rows or failed.
---
 executor/mysql/executor.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index a9d8926..ea76bcc 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -23,6 +23,7 @@ import (
 
 	ddd "github.com/bytedance/dddfirework"
 	"gorm.io/gorm"
+	"gorm.io/gorm/clause"
 	"gorm.io/gorm/schema"
 )
 
@@ -72,6 +73,19 @@ func RegisterConverter(entity ddd.IEntity, converter IConverter) {
 	}
 }
 
+// wherePrimary 限定到 m 所在的行，gorm 会忽略复合主键里的零值部分，这里需要带上
+func wherePrimary(db *gorm.DB, s *schema.Schema, m interface{}) *gorm.DB {
+	if len(s.PrimaryFields) == 1 {
+		return db
+	}
+	val := reflect.Indirect(reflect.ValueOf(m))
+	for _, f := range s.PrimaryFields {
+		v, _ := f.ValueOf(context.Background(), val)
+		db = db.Where(clause.Eq{Column: clause.Column{Table: clause.CurrentTable, Name: f.DBName}, Value: v})
+	}
+	return db
+}
+
 type execFunc func(db *gorm.DB, a *ddd.Action) error
 
 var opMap = map[ddd.OpType]execFunc{
@@ -95,7 +109,7 @@ var opMap = map[ddd.OpType]execFunc{
 				if len(fields) == 0 {
 					continue
 				}
-				if err := db.Select(fields).Updates(m).Error; err != nil {
+				if err := wherePrimary(db, s, m).Select(fields).Updates(m).Error; err != nil {
 					return err
 				}
 			} else {
@@ -129,7 +143,7 @@ var opMap = map[ddd.OpType]execFunc{
 		}
 		// 复合主键的一个个删
 		for _, m := range a.Models {
-			if err := db.Delete(m).Error; err != nil {
+			if err := wherePrimary(db, s, m).Delete(m).Error; err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 4546c5fe2736a81859fb880b93b4fdd340fd295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 13/32] fix: executors and event buses never share a
 transaction

Their context keys were made from the current second, so two of them created
within one second took each other's transaction for their own.
---
 eventbus/mysql/eventbus.go | 3 ++-
 executor/mysql/executor.go | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index def97c7..3a9545b 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -26,6 +26,7 @@ import (
 
 	"github.com/go-logr/logr"
 	"github.com/robfig/cron"
+	"github.com/rs/xid"
 	"gorm.io/gorm"
 	"gorm.io/gorm/clause"
 
@@ -211,7 +212,7 @@ func NewEventBus(serviceName string, db *gorm.DB, options ...Option) *EventBus {
 		logger:        opt.Logger,
 		retryStrategy: strategy,
 		opt:           opt,
-		txKey:         contextKey(fmt.Sprintf("eventbus_tx_%d", time.Now().Unix())),
+		txKey:         contextKey("eventbus_tx_" + xid.New().String()),
 		cleanCron:     cron.New(),
 	}
 	_ = eb.initService()
diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index ea76bcc..1196da7 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -19,9 +19,9 @@ import (
 	"context"
 	"fmt"
 	"reflect"
-	"time"
 
 	ddd "github.com/bytedance/dddfirework"
+	"github.com/rs/xid"
 	"gorm.io/gorm"
 	"gorm.io/gorm/clause"
 	"gorm.io/gorm/schema"
@@ -166,7 +166,7 @@ type Executor struct {
 func NewExecutor(db *gorm.DB) *Executor {
 	return &Executor{
 		db:    db,
-		txKey: contextKey(fmt.Sprintf("executor_tx_%d", time.Now().Unix())),
+		txKey: contextKey("executor_tx_" + xid.New().String()),
 	}
 }
 
-- 
2.43.0


From 778db5dd6a0bde4f1067981531ab6cf073ec5ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 14/32] fix: handle an event by its record as locked, not as
 scanned

Another instance may have handled it in between.
---
 eventbus/mysql/eventbus.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 3a9545b..349336e 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -556,9 +556,10 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 			e.logger.Info("find and lock current service_event error", "current event_id", po.ID, "err", err)
 			return err
 		}
-		// 二次确认下service_event 未被处理
-		if spo.Status != ServiceEventStatusInit {
-			e.logger.V(logger.LevelInfo).Info("current service_event'status it not init, ignore", "event_id", spo.EventID)
+		// 二次确认下service_event 未被处理，扫描之后可能已经被其他实例处理过，以加锁后查到的为准
+		spo = currentServiceEvent
+		if spo.Status != ServiceEventStatusInit || spo.NextTime.After(time.Now()) {
+			e.logger.V(logger.LevelInfo).Info("current service_event has been handled, ignore", "event_id", spo.EventID)
 			return nil
 		}
 		defer func() {
-- 
2.43.0


From fc295d923d5eb00195310ce1ff879983688d4c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 15/32] fix: dispatch stores an event and its records in one
 transaction

---
 eventbus/mysql/eventbus.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 349336e..f4c8c38 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -270,12 +270,12 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 	}
 	// return e.getDB(ctx).Create(pos).Error
 	// 在创建event的时候顺带创建service_event，在消费时创建service_event 非常复杂，必须联表查询容易导致慢sql 问题，且容易漏建service_event。
-	return e.db.Transaction(func(tx *gorm.DB) error {
-		if err := e.getDB(ctx).Create(pos).Error; err != nil {
+	return e.getDB(ctx).Transaction(func(db *gorm.DB) error {
+		if err := db.Create(pos).Error; err != nil {
 			return err
 		}
 		// gorm 在创建po后为对象赋值主键自增id
-		serviceNames, err := e.listService()
+		serviceNames, err := e.listService(db)
 		if err != nil {
 			return err
 		}
@@ -291,7 +291,7 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 					NextTime: po.EventCreatedAt,
 				}
 			}
-			if err := e.getDB(ctx).Create(spos).Error; err != nil {
+			if err := db.Create(spos).Error; err != nil {
 				return err
 			}
 		}
@@ -364,9 +364,9 @@ func (e *EventBus) initService() error {
 	return e.db.Where(ServicePO{Name: e.serviceName}).FirstOrCreate(service).Error
 }
 
-func (e *EventBus) listService() ([]string, error) {
+func (e *EventBus) listService(db *gorm.DB) ([]string, error) {
 	services := make([]*ServicePO, 0)
-	if err := e.db.Find(&services).Error; err != nil {
+	if err := db.Find(&services).Error; err != nil {
 		return nil, err
 	}
 	serviceNames := make([]string, 0)
-- 
2.43.0


From 9a136a520b27cb9db23e05d03a656ad4c13ca63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 16/32] fix: the failure message of an event is always valid
 text

---
 eventbus/mysql/eventbus.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index f4c8c38..393817b 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"runtime/debug"
+	"strings"
 	"sync"
 	"time"
 	"unicode/utf8"
@@ -569,10 +570,11 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 				e.doRetryStrategy(spo)
 				spo.FailedMessage = fmt.Sprintf("%v", err)
 			}
-			// 65535 是FailedMessage 字段的db类型长度
+			// 65535 是FailedMessage 字段的db类型长度，截断可能破坏字符，且错误信息本身也可能不是合法的 utf8，非法字节无法写入 text 字段
 			if len(spo.FailedMessage) > 65535 {
 				spo.FailedMessage = spo.FailedMessage[:65535]
 			}
+			spo.FailedMessage = strings.ToValidUTF8(spo.FailedMessage, "")
 			spo.RunAt = time.Now()
 			// 插入或更新 service_event。 此处必须覆盖掉err 的值，目的是保证service_event 一定进到db
 			if err = tx.Save(spo).Error; err != nil {
-- 
2.43.0


From 00abe406dc04a215f441abab6d04e7e88af3d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 17/32] fix: commit a transactional message once

---
 eventbus/mysql/eventbus.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 393817b..80e490c 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -327,18 +327,27 @@ func (e *EventBus) Commit(ctx context.Context) error {
 		return ErrNoTransaction
 	}
 
-	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
-	if err != gorm.ErrRecordNotFound {
-		return err
-	}
-	if err == gorm.ErrRecordNotFound {
-		err := e.Dispatch(ctx, tx.Events...)
-		if err != nil {
+	// 先锁住事务记录，保证与超时反查互斥；事件入库与事务记录的删除在同一个 db 事务内完成
+	return e.getDB(ctx).Transaction(func(db *gorm.DB) error {
+		lockErr := db.Clauses(clause.Locking{Strength: "UPDATE"}).First(&Transaction{}, tx.ID).Error
+		if lockErr != nil && !errors.Is(lockErr, gorm.ErrRecordNotFound) {
+			return lockErr
+		}
+		err := db.Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
+		if err != nil && !errors.Is(err, gorm.ErrRecordNotFound) {
 			return err
 		}
-	}
-
-	return e.getDB(ctx).Delete(tx).Error
+		if errors.Is(err, gorm.ErrRecordNotFound) {
+			if lockErr != nil {
+				// 事务记录已不存在，且没有提交过，说明已经回滚
+				return ErrNoTransaction
+			}
+			if err := e.Dispatch(e.ctxWithDB(ctx, db), tx.Events...); err != nil {
+				return err
+			}
+		}
+		return db.Delete(tx).Error
+	})
 }
 
 // Rollback 回滚事务消息
-- 
2.43.0


From ef08c5a082a910f0abd92b29434d907964e92824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 18/32] fix: an ordered event waits for every earlier event of
 its sender

---
 eventbus/mysql/eventbus.go | 64 +++++++++++++-------------------------
 1 file changed, 21 insertions(+), 43 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 80e490c..850bca0 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -502,56 +502,34 @@ func (e *EventBus) checkPrecedingEvent(tx *gorm.DB, eventPO *EventPO, spo *Servi
 		e.logger.Error(err, "event_id", spo.EventID)
 		return err
 	}
-	// 找到前序event
-	precedingEvent := &EventPO{}
-	if err := tx.Where("sender = ?", eventPO.Sender).
-		// event_created_at 是最权威的前序，但是时间精度问题导致可能前序event.event_created_at可能跟当前event一样，再用event_id 明确下
+	// 前序event：同 sender 更早的所有 event
+	// event_created_at 是最权威的前序，但是时间精度问题导致可能前序event.event_created_at可能跟当前event一样，再用 id 明确下
+	// 如果堵塞的event在event保留期内未被处理成功，在scanStartEventID之前的service_event不会被扫描到，也永远不会被处理，此时放弃它们，不要导致后续的event 处理堵塞。
+	precedingEvents := tx.Model(&EventPO{}).Select("id").
+		Where("sender = ?", eventPO.Sender).
 		Where("event_created_at <= ?", eventPO.EventCreatedAt).
 		Where("id < ?", eventPO.ID).
-		Order("event_created_at desc, event_id desc").Take(precedingEvent).Error; err != nil {
-		if !errors.Is(err, gorm.ErrRecordNotFound) {
-			e.logger.V(logger.LevelInfo).Info("find preceding event error", "current event_id", spo.EventID, "err", err)
-			return err
-		}
+		Where("id >= ?", scanStartEventID)
+	query := tx.Where("service = ?", e.serviceName).Where("event_id in (?)", precedingEvents)
+	if eventPO.Event.SendType == dddfirework.SendTypeFIFO {
+		// 前序event 未执行、失败、未过期，则不执行当前event
+		query = query.Where("status not in ?", []ServiceEventStatus{ServiceEventStatusSuccess, ServiceEventStatusExpired})
+	} else {
+		// 当期的策略是，哪怕前序event 在重试中，也还是init，除非超过重试次数status=failed。若想忽略重试这一点，可以check下 precedingServiceEvent.retryCount
+		query = query.Where("status = ?", ServiceEventStatusInit)
 	}
-	// 找不到前序event，则当前 event 可能是同sender的第一个event
-	if precedingEvent.ID == 0 {
-		e.logger.V(logger.LevelInfo).Info("can not find preceding event, see it as first event", "current event_id", spo.EventID)
-		return nil
-	} else if precedingEvent.ID < scanStartEventID {
-		// 如果堵塞的event在event保留期内未被处理成功，在scanStartEventID之前的service_event不会被扫描到，也永远不会被处理，此时放弃它们，不要导致后续的event 处理堵塞。
-		e.logger.V(logger.LevelInfo).Info("preceding event is expired, see it as first event", "current event_id", spo.EventID)
-		return nil
+	notReady := &ServiceEventPO{}
+	err := query.Order("event_id").Take(notReady).Error
+	if err == nil {
+		e.logger.V(logger.LevelInfo).Info("preceding service_event is not ready, ignore", "current event_id", spo.EventID,
+			"preceding event_id", notReady.EventID, "precedingServiceEvent status", notReady.Status)
+		return ErrPrecedingEventNotReady
 	}
-	// 找到前序service_event
-	precedingServiceEvent := &ServiceEventPO{}
-	if err := tx.Where("service = ?", e.serviceName).
-		Where("event_id = ?", precedingEvent.ID).
-		First(precedingServiceEvent).Error; err != nil {
-		if errors.Is(err, gorm.ErrRecordNotFound) {
-			e.logger.V(logger.LevelInfo).Info("can not find preceding service_event, see it as first event", "current event_id", spo.EventID)
-			return nil
-		}
+	if !errors.Is(err, gorm.ErrRecordNotFound) {
 		e.logger.V(logger.LevelInfo).Info("find preceding service_event error", "current event_id", spo.EventID, "err", err)
 		return err
 	}
-	if eventPO.Event.SendType == dddfirework.SendTypeFIFO {
-		if precedingServiceEvent.Status != ServiceEventStatusSuccess && precedingServiceEvent.Status != ServiceEventStatusExpired {
-			// 前序event 未执行、失败、未过期，则不执行当前event
-			e.logger.V(logger.LevelInfo).Info("preceding service_event is not success or expired, ignore", "current event_id", spo.EventID)
-			return ErrPrecedingEventNotReady
-		}
-	} else if eventPO.Event.SendType == dddfirework.SendTypeLaxFIFO {
-		// 当期的策略是，哪怕前序event 在重试中，也还是init，除非超过重试次数status=failed。若想忽略重试这一点，可以check下 precedingServiceEvent.retryCount
-		if precedingServiceEvent.Status == ServiceEventStatusInit {
-			e.logger.V(logger.LevelInfo).Info("find preceding service_event has not been run", "current event_id", spo.EventID)
-			// 前序event 未执行，则不执行当前event
-			return ErrPrecedingEventNotReady
-		}
-	}
-	e.logger.V(logger.LevelInfo).Info("preceding event is ready", "current event_id", spo.EventID,
-		"preceding event_id", precedingServiceEvent.EventID,
-		"precedingServiceEvent status", precedingServiceEvent.Status)
+	e.logger.V(logger.LevelInfo).Info("preceding event is ready", "current event_id", spo.EventID)
 	return nil
 }
 
-- 
2.43.0


From bbeb1fe75dac5da9f91212fb90db8f05e116c0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 19/32] fix: events held back by their order do not use up the
 scan limit

---
 eventbus/mysql/eventbus.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 850bca0..cc5e6eb 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -422,7 +422,7 @@ func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, error)
 		Where("event_id >= ?", eventOffset).
 		//Where("event_id < ?", eventBound).
 		Where("next_time <= ?", time.Now()).
-		Order("event_id").Limit(e.opt.LimitPerRun).Find(&serviceEventPOs).Error; err != nil {
+		Order("next_time, event_id").Limit(e.opt.LimitPerRun).Find(&serviceEventPOs).Error; err != nil {
 		if !errors.Is(err, gorm.ErrRecordNotFound) {
 			return nil, err
 		}
@@ -433,16 +433,22 @@ func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, error)
 		eventIds = append(eventIds, serviceEvent.EventID)
 	}
 	eventPOs := make([]*EventPO, 0)
-	if err := e.db.Where("id in ?", eventIds).Order("id").Find(&eventPOs).Error; err != nil {
+	if err := e.db.Where("id in ?", eventIds).Find(&eventPOs).Error; err != nil {
 		return nil, err
 	}
-	// eventPO与serviceEventPO 都按event id排序才能进行下一步
+	eventsByID := make(map[int64]*EventPO, len(eventPOs))
+	for _, eventPO := range eventPOs {
+		eventsByID[eventPO.ID] = eventPO
+	}
 	events := make([]*EventTuple, 0)
-	for index, eventPO := range eventPOs {
-		events = append(events, &EventTuple{
-			ServiceEvent: serviceEventPOs[index],
-			Event:        eventPO,
-		})
+	for _, serviceEvent := range serviceEventPOs {
+		// 扫描期间 event 可能已经被处理并清理
+		if eventPO, ok := eventsByID[serviceEvent.EventID]; ok {
+			events = append(events, &EventTuple{
+				ServiceEvent: serviceEvent,
+				Event:        eventPO,
+			})
+		}
 	}
 	return events, nil
 }
@@ -574,6 +580,10 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 		if po.Event.SendType == dddfirework.SendTypeFIFO || po.Event.SendType == dddfirework.SendTypeLaxFIFO {
 			if err = e.checkPrecedingEvent(tx, po, spo, scanStartEventID); err != nil {
 				spo.FailedMessage = fmt.Sprintf("%v", err)
+				if errors.Is(err, ErrPrecedingEventNotReady) {
+					// 排到其他待处理的 event 之后，避免被堵塞的 event 占满每次扫描的名额
+					spo.NextTime = time.Now()
+				}
 				return err
 			}
 		}
-- 
2.43.0


From d5d500768016890dbd100d59f43c5b6e0e08305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 20/32] fix: the database lock recognises duplicate keys
 without TranslateError

---
 lock/db/sql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 9657786..d00f144 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -103,6 +103,10 @@ func (r *DBLock) lock(ctx context.Context, key string) (keyLock interface{}, err
 		l := &ResourceLock{Resource: key, LockerID: lockerID}
 		err = r.db.WithContext(ctx).Create(l).Error
 		if err != nil {
+			// 没有开启 TranslateError 的 db，需要借助 Dialector 识别唯一键冲突
+			if translator, ok := r.db.Dialector.(gorm.ErrorTranslator); ok {
+				err = translator.Translate(err)
+			}
 			if errors.Is(err, gorm.ErrDuplicatedKey) {
 				return nil, dddfirework.ErrEntityLocked
 			}
-- 
2.43.0


From e8e343d53d04b675b1f22540cca7af57ba953253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 21/32] fix: a run under the database lock ends its renewal

---
 lock/db/sql.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index d00f144..46e092f 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -173,17 +173,25 @@ func (r *DBLock) Run(ctx context.Context, key string, fn func(ctx context.Contex
 		}
 	}() // pass parent ctx in here, or defer will use sub ctx below
 
-	ticker := time.NewTicker(r.opt.RenewInterval)
-	// 业务函数执行完成后，会停止renew 协程
-	defer ticker.Stop()
 	subCtx, cancel := context.WithCancel(ctx)
+	defer cancel()
+	// 业务函数执行完成后，会停止renew 协程
+	done := make(chan struct{})
+	defer close(done)
 	go func() {
-		for range ticker.C {
-			if err = r.update(ctx, locker); err != nil {
+		ticker := time.NewTicker(r.opt.RenewInterval)
+		defer ticker.Stop()
+		for {
+			select {
+			case <-done:
+				return
+			case <-ticker.C:
+			}
+			if err := r.update(ctx, locker); err != nil {
 				// 续期失败，会通知业务函数停止执行
 				cancel()
 				r.logger.Info(fmt.Sprintf("failed to renew lock %s, error: %v", key, err))
-				break
+				return
 			}
 		}
 	}()
-- 
2.43.0


From 561f0f52c81191212da15116b88d1959a9361345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:59 +0000
Subject: [PATCH 22/32] fix: a run under the database lock releases it after
 its caller cancelled

---
 lock/db/sql.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 46e092f..e33598a 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -168,7 +168,8 @@ func (r *DBLock) Run(ctx context.Context, key string, fn func(ctx context.Contex
 		return err
 	}
 	defer func() {
-		if err = r.UnLock(ctx, locker); err != nil {
+		// ctx 可能已经被取消，不能影响锁的释放
+		if err := r.UnLock(detachedContext{ctx}, locker); err != nil {
 			r.logger.Error(err, fmt.Sprintf("failed to unlock %s", key))
 		}
 	}() // pass parent ctx in here, or defer will use sub ctx below
@@ -199,3 +200,12 @@ func (r *DBLock) Run(ctx context.Context, key string, fn func(ctx context.Contex
 	fn(subCtx)
 	return nil
 }
+
+// detachedContext 保留 ctx 中的数据，但不随 ctx 取消或超时
+type detachedContext struct {
+	context.Context
+}
+
+func (detachedContext) Deadline() (deadline time.Time, ok bool) { return time.Time{}, false }
+func (detachedContext) Done() <-chan struct{}                   { return nil }
+func (detachedContext) Err() error                              { return nil }
-- 
2.43.0


From f1017b460fd1a6e186a259fe5bd1d95ade07b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 23/32] fix: the database lock is not taken over after it was
 renewed

---
 lock/db/sql.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index e33598a..3b84faa 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -119,9 +119,9 @@ func (r *DBLock) lock(ctx context.Context, key string) (keyLock interface{}, err
 		// key is locked
 		return nil, dddfirework.ErrEntityLocked
 	}
-	// 有记录但是数据过期
+	// 有记录但是数据过期，读取之后记录可能已被续期，以更新时未变化为准
 	res := r.db.WithContext(ctx).Model(&ResourceLock{}).Where("resource = ?", key).
-		Where("locker_id = ?", lock.LockerID).
+		Where("locker_id = ? AND updated_at = ?", lock.LockerID, lock.UpdatedAt).
 		UpdateColumns(ResourceLock{UpdatedAt: time.Now(), LockerID: lockerID})
 
 	if res.Error != nil {
-- 
2.43.0


From bc5d142016294faf82e51009dbedb1f36006f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 24/32] fix: locks are released after the caller of a command
 cancelled

---
 engine.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 93772c4..8dd1624 100644
--- a/engine.go
+++ b/engine.go
@@ -23,6 +23,7 @@ import (
 	"reflect"
 	"sort"
 	"strings"
+	"time"
 
 	"github.com/go-logr/logr"
 	"github.com/rs/xid"
@@ -1227,6 +1228,15 @@ func (e *Stage) do(ctx context.Context) *Result {
 
 type doSave func(ctx context.Context) *Result
 
+// detachedContext 保留 ctx 中的数据，但不随 ctx 取消或超时
+type detachedContext struct {
+	context.Context
+}
+
+func (detachedContext) Deadline() (deadline time.Time, ok bool) { return time.Time{}, false }
+func (detachedContext) Done() <-chan struct{}                   { return nil }
+func (detachedContext) Err() error                              { return nil }
+
 func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 	return func(ctx context.Context) *Result {
 		sort.Strings(lockKeys)
@@ -1249,8 +1259,10 @@ func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 			ls = append(ls, l)
 		}
 		defer func() {
+			// ctx 可能已经被取消，不能影响锁的释放
+			unlockCtx := detachedContext{ctx}
 			for _, l := range ls {
-				if err := e.locker.UnLock(ctx, l); err != nil {
+				if err := e.locker.UnLock(unlockCtx, l); err != nil {
 					e.logger.Error(err, "unlock failed")
 				}
 			}
-- 
2.43.0


From 6a469d6c384a5392c6fce0f62700b1a9c080cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 25/32] fix: the timer rejects cron texts that never match

---
 d_timer/sql/model.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/d_timer/sql/model.go b/d_timer/sql/model.go
index 3ac8f65..a2efe1d 100644
--- a/d_timer/sql/model.go
+++ b/d_timer/sql/model.go
@@ -9,6 +9,7 @@ import (
 )
 
 var ErrTimerOverdue = fmt.Errorf("timer overdue")
+var ErrCronNeverMatch = fmt.Errorf("cron never matches")
 
 type TimerJob struct {
 	ID        int64       `gorm:"primaryKey;column:id;autoIncrement"`
@@ -45,7 +46,12 @@ func (t *TimerJob) Reset() error {
 		return err
 	}
 
-	t.NextTime = scheduler.Next(time.Now())
+	next := scheduler.Next(time.Now())
+	if next.IsZero() {
+		t.Close(ErrCronNeverMatch)
+		return ErrCronNeverMatch
+	}
+	t.NextTime = next
 	t.Status = TimerToRun
 	return nil
 }
-- 
2.43.0


From e284b116c26ada7112ba43813e50a34d889f30b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 26/32] fix: the timer rejects an empty cron text

---
 d_timer/sql/model.go | 1 +
 d_timer/sql/timer.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/d_timer/sql/model.go b/d_timer/sql/model.go
index a2efe1d..a7e557c 100644
--- a/d_timer/sql/model.go
+++ b/d_timer/sql/model.go
@@ -9,6 +9,7 @@ import (
 )
 
 var ErrTimerOverdue = fmt.Errorf("timer overdue")
+var ErrCronEmpty = fmt.Errorf("cron is empty")
 var ErrCronNeverMatch = fmt.Errorf("cron never matches")
 
 type TimerJob struct {
diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 8d39b7b..19ad0b2 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -64,6 +64,10 @@ func NewDBTimer(service string, db *gorm.DB, opts ...Option) *DBTimer {
 }
 
 func (t *DBTimer) RunCron(key, cronExp string, data []byte) error {
+	// 没有 cron 的记录表示单次定时
+	if cronExp == "" {
+		return ErrCronEmpty
+	}
 	newTimer := TimerJob{
 		Service: t.service,
 		Key:     key,
-- 
2.43.0


From 5bc4115ca292fe81e916e1b0b574b6b87451f109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 27/32] fix: instances can set the same timer at the same time

---
 d_timer/sql/timer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 19ad0b2..a15edc0 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -101,10 +101,17 @@ func (t *DBTimer) run(job *TimerJob) error {
 	if err := job.Reset(); err != nil {
 		return err
 	}
-	return t.db.Where(TimerJob{
+	cond := TimerJob{
 		Service: t.service,
 		Key:     job.Key,
-	}).Attrs(job).FirstOrCreate(&TimerJob{}).Error
+	}
+	if err := t.db.Where(cond).Attrs(job).FirstOrCreate(&TimerJob{}).Error; err != nil {
+		// 可能其他实例同时设置了相同的定时，此时不覆盖已有计时
+		if t.db.Where(cond).First(&TimerJob{}).Error != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func (t *DBTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
-- 
2.43.0


From f57e4d9be08d3cdc19480883cd59595b17800c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:03 +0000
Subject: [PATCH 28/32] fix: a service cancels only its own timers

---
 d_timer/sql/timer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index a15edc0..701a8df 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -94,7 +94,7 @@ func (t *DBTimer) RunOnce(key string, runTime time.Time, data []byte) error {
 }
 
 func (t *DBTimer) Cancel(key string) error {
-	return t.db.Unscoped().Where(TimerJob{Key: key}).Delete(&TimerJob{}).Error
+	return t.db.Unscoped().Where(map[string]interface{}{"service": t.service, "key": key}).Delete(&TimerJob{}).Error
 }
 
 func (t *DBTimer) run(job *TimerJob) error {
-- 
2.43.0


From 7bf67f659abceb39d2dcda8f6d49e777964d7875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 29/32] fix: a panicking timer callback does not end the
 process

---
 d_timer/sql/timer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 701a8df..2a935f8 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -2,6 +2,7 @@ package sql
 
 import (
 	"context"
+	"fmt"
 	stdlog "log"
 	"os"
 	"sync"
@@ -118,6 +119,16 @@ func (t *DBTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
 	t.cb = cb
 }
 
+// callback 执行回调，回调 panic 视为失败，不影响其他定时
+func (t *DBTimer) callback(ctx context.Context, job *TimerJob) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("timer callback panic: %v", r)
+		}
+	}()
+	return t.cb(ctx, job.Key, job.Cron, job.Payload)
+}
+
 func (t *DBTimer) handleJobs(ctx context.Context) error {
 	jobs := make([]*TimerJob, 0)
 	if err := t.db.Where(
@@ -141,7 +152,7 @@ func (t *DBTimer) handleJobs(ctx context.Context) error {
 				return nil
 			}
 
-			if err := t.cb(ctx, job.Key, job.Cron, job.Payload); err != nil {
+			if err := t.callback(ctx, job); err != nil {
 				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)
 			}
 			if err := job.Next(); err != nil {
-- 
2.43.0


From ae0ad7d05b9e292d0698cf1f7029496ba60c744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 30/32] fix: the Redis lock reports a held key as locked
 whatever its time-to-live

---
 lock/redis/redis.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lock/redis/redis.go b/lock/redis/redis.go
index 90a6e92..48aba88 100644
--- a/lock/redis/redis.go
+++ b/lock/redis/redis.go
@@ -25,6 +25,8 @@ import (
 	"github.com/bytedance/dddfirework"
 )
 
+const maxObtainTime = time.Minute
+
 type RedisLock struct {
 	ttl time.Duration
 	cli *redislock.Client
@@ -35,6 +37,13 @@ func NewRedisLock(cli *redis.Client, ttl time.Duration) *RedisLock {
 }
 
 func (r *RedisLock) Lock(ctx context.Context, key string) (keyLock interface{}, err error) {
+	// 没有 deadline 时 redislock 会以 ttl 作为 deadline，ttl 小于重试时间时不会返回 ErrNotObtained；
+	// 重试次数是有限的，这里只需要一个足够长的 deadline
+	if _, ok := ctx.Deadline(); !ok {
+		var cancel context.CancelFunc
+		ctx, cancel = context.WithTimeout(ctx, maxObtainTime)
+		defer cancel()
+	}
 	if keyLock, err = r.cli.Obtain(ctx, key, r.ttl, &redislock.Options{
 		// 默认固定间隔重试，最大重试30次
 		RetryStrategy: redislock.LimitRetry(redislock.LinearBackoff(100*time.Millisecond), 30)},
-- 
2.43.0


From f3330feb8400a09c78439ba9bfb6aead79640a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:36 +0000
Subject: [PATCH 31/32] fix: a panicking transaction checker does not end the
 process

---
 eventbus/mysql/eventbus.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index cc5e6eb..7e82453 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -633,10 +633,22 @@ func (e *EventBus) handleEvents() error {
 	return nil
 }
 
+// askTX 反查事务结果，反查接口 panic 视为未知状态
+func (e *EventBus) askTX(evt *dddfirework.DomainEvent) (st dddfirework.TXStatus) {
+	defer func() {
+		if r := recover(); r != nil {
+			err := fmt.Errorf("err: %v stack:%s", r, string(debug.Stack()))
+			e.logger.Error(err, fmt.Sprintf("panic while checking the transaction of event(%s)", evt.ID))
+			st = dddfirework.TXUnknown
+		}
+	}()
+	return e.txChecker(evt)
+}
+
 func (e *EventBus) checkTX(ctx context.Context, tx *Transaction) {
 	ctx = e.ctxWithTX(ctx, tx)
 	evt := tx.Events[0]
-	st := e.txChecker(evt)
+	st := e.askTX(evt)
 	if st == dddfirework.TXCommit {
 		if err := e.Commit(ctx); err != nil {
 			e.logger.Error(err, "[eventbus] commit failed after tx check timeout")
-- 
2.43.0


From e67b25c9c96297c6851919a762aa6bb623b42f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:34 +0000
Subject: [PATCH 32/32] fix: register the service again after a registration
 that failed at construction

initService's error was dropped by NewEventBus and ErrServiceNotCreate, which makes Start
register again, was never returned: such a service never got a record of any event.
---
 eventbus/mysql/eventbus.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 7e82453..54957ae 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -22,6 +22,7 @@ import (
 	"runtime/debug"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 	"unicode/utf8"
 
@@ -167,6 +168,8 @@ type EventBus struct {
 	cb        dddfirework.DomainEventHandler
 	cleanCron *cron.Cron
 	once      sync.Once
+
+	registered atomic.Bool // 服务是否已经注册成功
 }
 
 // NewEventBus 提供领域事件直接持久化到数据库，异步查询事件并推送的功能
@@ -371,7 +374,11 @@ func (e *EventBus) RegisterEventHandler(cb dddfirework.DomainEventHandler) {
 
 func (e *EventBus) initService() error {
 	service := &ServicePO{}
-	return e.db.Where(ServicePO{Name: e.serviceName}).FirstOrCreate(service).Error
+	if err := e.db.Where(ServicePO{Name: e.serviceName}).FirstOrCreate(service).Error; err != nil {
+		return err
+	}
+	e.registered.Store(true)
+	return nil
 }
 
 func (e *EventBus) listService(db *gorm.DB) ([]string, error) {
@@ -609,6 +616,10 @@ func (e *EventBus) handleEvents() error {
 			e.logger.Error(err, "panic while handleEvents")
 		}
 	}()
+	// 服务未注册成功时收不到任何 event，需要重新注册
+	if !e.registered.Load() {
+		return ErrServiceNotCreate
+	}
 	ctx := context.Background()
 	curScanStartTime := time.Now().Add(-scanStartTime)
 	// 根据 curScanStartTime确定扫描起点
-- 
2.43.0

