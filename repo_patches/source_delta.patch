From bf2c67b4b8dcac20ac07b580dd70b14316d8ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:46 +0000
Subject: [PATCH 01/30] verif: build-tagged access to undo/redo for the
 simulator

---
 pkg/app/hooks_verif.go | 9 +++++++++
 1 file changed, 9 insertions(+)
 create mode 100644 pkg/app/hooks_verif.go

diff --git a/pkg/app/hooks_verif.go b/pkg/app/hooks_verif.go
new file mode 100644
index 0000000..f447f77
--- /dev/null
+++ b/pkg/app/hooks_verif.go
@@ -0,0 +1,9 @@
+//go:build verif
+
+package app
+
+// VerifUndo and VerifRedo give the verification harness access to the unexported history walk.
+
+func VerifUndo(a App) (error, int) { return a.(*app).undo() }
+
+func VerifRedo(a App) (error, int) { return a.(*app).redo() }
-- 
2.43.0


From 3a5040a9b8bf7ce5c2b05a3f1fcfa7f817cc4728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:16 +0000
Subject: [PATCH 02/30] fix: accept item types by name, so that setting,
 undoing and loading a typed item works

---
 pkg/world/world.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 7df1d58..bce027a 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -401,8 +401,8 @@ func itemSet(item Item, params ItemParams) (Item, error) {
 		item.External = *params.External
 	}
 	if params.Type != nil {
-		if iotaType, err := strconv.Atoi(*params.Type); err == nil {
-			item.Type = ItemType(iotaType)
+		if itemType, err := itemTypeFromParam(*params.Type); err == nil {
+			item.Type = itemType
 		} else {
 			errs = append(errs, err)
 		}
@@ -416,6 +416,18 @@ func itemSet(item Item, params ItemParams) (Item, error) {
 	return item, nil
 }
 
+// itemTypeFromParam reads a type parameter: the name of an ItemType, its number, or empty for no type.
+func itemTypeFromParam(s string) (ItemType, error) {
+	if t := ItemTypeFromString(s); t != 0 || s == "" {
+		return t, nil
+	}
+	iotaType, err := strconv.Atoi(s)
+	if err == nil && StringFromItemType(ItemType(iotaType)) == "" && iotaType != 0 {
+		err = errors.New("unknown item type").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "type", Value: s})
+	}
+	return ItemType(iotaType), err
+}
+
 func (w *world) ItemParent(childId string) (Item, bool) {
 	w.resetLatestTrackers()
 	tree, ok := w.Tree.Find(childId)
@@ -678,10 +690,15 @@ func (w *world) Rel() (Rel, error) {
 // --- INTERNAL HELPERS ---
 
 func equalItemParams(existing Item, params ItemParams) error {
+	typeDiffers := false
+	if params.Type != nil {
+		itemType, err := itemTypeFromParam(*params.Type)
+		typeDiffers = err != nil || itemType != existing.Type
+	}
 	if (params.Name != nil && *params.Name != existing.Name) ||
 		(params.Expanded != nil && *params.Expanded != existing.Expanded) ||
 		(params.External != nil && *params.External != existing.External) ||
-		(params.Type != nil && strconv.Itoa(int(existing.Type)) != *params.Type) ||
+		typeDiffers ||
 		(params.Mechanism != nil && *params.Mechanism != existing.Mechanism) {
 		existingJson, _ := json.Marshal(existing)
 		paramsJson, _ := json.Marshal(params)
-- 
2.43.0


From f1986fb9eb1c358c1a0079e4427fe19bc25ab56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 03/30] fix: keep the tree's and the relationships' copies of
 an item current, and return created objects with their attributes

---
 pkg/world/world.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index bce027a..1a800c5 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -330,7 +330,7 @@ func (w *world) ItemCreate(id string, params ItemParams) WorldWithItem {
 	}
 	w.Items[id] = item
 	w.ItemSet(id, params) // After we set in the tracking map on World.
-	w.latestItem = &item
+	item = w.Items[id]
 	if err := w.Tree.AddOrMove(&item); err != nil {
 		// This shouldn't happen if we're properly syncing the Items map with Tree...
 		w.latestErr = err
@@ -386,9 +386,28 @@ func (w *world) ItemSet(id string, params ItemParams) WorldWithItem {
 	}
 	w.Items[id] = item
 	w.latestItem = &item
+	w.syncItem(item)
 	return w
 }
 
+// syncItem updates the copies of the Item that Tree and Rels hold.
+func (w *world) syncItem(item Item) {
+	if node, ok := w.Tree.Find(item.Id); ok {
+		if t, ok := node.(*tree); ok {
+			t.item = &item
+		}
+	}
+	for k, rel := range w.Rels {
+		if rel.From.Id == item.Id {
+			rel.From = item
+		}
+		if rel.To.Id == item.Id {
+			rel.To = item
+		}
+		w.Rels[k] = rel
+	}
+}
+
 func itemSet(item Item, params ItemParams) (Item, error) {
 	errs := make([]error, 0)
 	if params.Name != nil {
@@ -485,7 +504,6 @@ func (w *world) RelCreate(fromId, toId string, params RelParams) WorldWithRel {
 	}
 	w.Rels[rel.id()] = rel
 	w.RelSet(fromId, toId, params) // After we set in the tracking map on World.
-	w.latestRel = &rel
 	return w
 }
 
-- 
2.43.0


From 459861cefacbcf3469210e340b881c06ae440737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:50 +0000
Subject: [PATCH 04/30] fix: keep parent pointers right when items move or
 their parent is deleted, and refuse to nest an item inside itself

---
 pkg/world/tree.go  | 14 ++++++++++++++
 pkg/world/world.go |  7 +++++++
 2 files changed, 21 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 6baa839..284f5a3 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -152,9 +152,13 @@ func (t *tree) AddOrMove(item *Item) error {
 	}
 	if node, ok := t.Root().Find(item.Id); ok {
 		// Already in a different Tree.
+		if t.item != nil && node.Has(t.item.Id, false) {
+			return errors.New("cannot move Item into itself or its own Components").UseCode(errors.TopolithErrorConflict).WithData(errors.KvPair{Key: "id", Value: item.Id}, errors.KvPair{Key: "parentId", Value: t.item.Id})
+		}
 		// Just move the node to this Tree.
 		node.Parent().Components().Remove(node)
 		t.components.Add(node)
+		setParent(node, t)
 		return nil
 	}
 	// Not in any Tree. Make it and add.
@@ -207,6 +211,9 @@ func (t *tree) Delete(id string) {
 	found.Parent().Components().Remove(found)
 	for _, c := range foundComponents {
 		found.Parent().Components().Add(c)
+		if parent, ok := found.Parent().(*tree); ok {
+			setParent(c, parent)
+		}
 	}
 }
 
@@ -257,6 +264,13 @@ func (t *tree) Empty() bool {
 
 // --- INTERNAL HELPERS ---
 
+// setParent records the parent of a Tree that has become one of its Components.
+func setParent(t Tree, parent *tree) {
+	if child, ok := t.(*tree); ok {
+		child.parent = parent
+	}
+}
+
 func newTree(item *Item, parent *tree) *tree {
 	return &tree{
 		item:       item,
diff --git a/pkg/world/world.go b/pkg/world/world.go
index 1a800c5..a967a5b 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -668,6 +668,13 @@ func (w *world) Nest(childId, parentId string) WorldWithItem {
 			WithData(errors.KvPair{Key: "parentId", Value: parentId})
 		return w
 	}
+	if childId == parentId {
+		w.latestErr = errors.
+			New("cannot nest an Item in itself").
+			UseCode(errors.TopolithErrorConflict).
+			WithData(errors.KvPair{Key: "childId", Value: childId})
+		return w
+	}
 	w.latestErr = tree.AddOrMove(&item)
 	return w
 }
-- 
2.43.0


From 15f4970dcd7be3945b529b5be684126d4554397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:09 +0000
Subject: [PATCH 05/30] fix: from? and to? find relationships by their items,
 rolled up unless strict

---
 pkg/world/world.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index a967a5b..96b2977 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -536,7 +536,7 @@ func (w *world) RelFetch(fromId, toId string, strict bool) []Rel {
 func (w *world) RelTo(toId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	rightIds := []string{toId}
-	if strict {
+	if !strict {
 		rightIds = append(w.Tree.GetDescendantIds(toId), toId)
 	}
 	for _, rel := range w.Rels {
@@ -550,11 +550,11 @@ func (w *world) RelTo(toId string, strict bool) []Rel {
 func (w *world) RelFrom(fromId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	leftIds := []string{fromId}
-	if strict {
+	if !strict {
 		leftIds = append(w.Tree.GetDescendantIds(fromId), fromId)
 	}
-	for k, rel := range w.Rels {
-		if slices.Contains(leftIds, k) {
+	for _, rel := range w.Rels {
+		if slices.Contains(leftIds, rel.From.Id) {
 			rels = append(rels, rel)
 		}
 	}
-- 
2.43.0


From 8ce16bc067502cbe87dd02c9e3fdad7f9e13fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:35 +0000
Subject: [PATCH 06/30] fix: relationships of different item pairs never share
 a key

---
 pkg/world/rel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index 4c810a6..f0b7bbc 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
+	"strconv"
 	"strings"
 )
 
@@ -87,7 +88,7 @@ func (r Rel) id() string {
 }
 
 func relIdFromIds(fromId, toId string) string {
-	return fromId + RelIdSeparator + toId
+	return strconv.Quote(fromId) + RelIdSeparator + strconv.Quote(toId) // Quoted, because the IDs may contain the separator.
 }
 
 // RelParams is a struct that represents the parameters that can be set on a Rel.
-- 
2.43.0


From 588b4558249f2d25b5985195c67883057546ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:36 +0000
Subject: [PATCH 07/30] fix: rel delete looks up and restores the relationship
 it deletes

---
 pkg/app/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index d3de1f4..610d70d 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -663,7 +663,7 @@ type RelDeleteCommand struct {
 }
 
 func (c *RelDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
-	rels := w.RelFetch(c.Id, c.Id, true)
+	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noDelete = true
 		return world.Rel{}, nil
@@ -680,7 +680,7 @@ func (c *RelDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.RelCreate(c.Id, c.Id, c.oldParams).Err()
+	return w.RelCreate(c.Id, c.ToId, c.oldParams).Err()
 }
 
 // --- EXPORTED FUNCTIONS ---
-- 
2.43.0


From 0bead0012ddcbf0df3c646c56870e342402b884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:38 +0000
Subject: [PATCH 08/30] fix: rel create answers with the existing relationship,
 as item create does

---
 pkg/app/command.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 610d70d..b355b44 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -450,7 +450,7 @@ type RelCreateCommand struct {
 func (c *RelCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
 	if rels := w.RelFetch(c.Id, c.ToId, true); len(rels) > 0 {
 		c.noCreate = true
-		return world.Rel{}, nil
+		return rels[0], nil
 	}
 	return w.RelCreate(c.Id, c.ToId, c.Params).Rel()
 }
-- 
2.43.0


From a5d5bbeaa6c120506ac3e696faa5991f2176e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 09/30] fix: items in X lists the components of X

---
 pkg/app/command.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index b355b44..0c3e9ba 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -726,6 +726,10 @@ func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, erro
 	case Fetch:
 		return &ItemFetchCommand{CommandBase: base}, nil
 	case List:
+		if base.Id != "" {
+			// List the Components of the named Item.
+			return &ItemComponentsListCommand{CommandBase: base}, nil
+		}
 		return &ItemListCommand{CommandBase: base, Limit: limitFromInput(input)}, nil
 	case Set:
 		return &ItemSetCommand{CommandBase: base, Params: world.ItemParamsFromInput(input)}, nil
-- 
2.43.0


From 43d2c2cb3f1b9b1d2ce4871a6a7d61d6b60ecf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:27 +0000
Subject: [PATCH 10/30] fix: nest and free do all or nothing, and can be undone

---
 pkg/app/command.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 0c3e9ba..bf25334 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -269,26 +269,40 @@ type ItemNestCommand struct {
 }
 
 func (c *ItemNestCommand) Execute(w world.World) (fmt.Stringer, error) {
-	oldParentIds := make(map[string]string)
-	noNest := make(map[string]bool)
+	c.oldParentIds = make(map[string]string)
+	c.noNest = make(map[string]bool)
 	errs := make([]error, 0)
+	if _, found := w.ItemFetch(c.ParentId); !found {
+		errs = append(errs, errors.New("could not find parent Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: c.ParentId}))
+	}
 	for _, id := range c.Ids {
 		oldParentId, found := w.Parent(id)
 		if !found {
-			noNest[id] = true
+			c.noNest[id] = true
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
-		if oldParentId == c.ParentId {
-			noNest[id] = true
+		if w.In(c.ParentId, id, false) {
+			errs = append(errs, errors.New("cannot nest Item under itself").UseCode(errors.TopolithErrorConflict).WithData(errors.KvPair{Key: "id", Value: id}, errors.KvPair{Key: "parentId", Value: c.ParentId}))
 			continue
 		}
-		w.Nest(id, c.ParentId)
+		c.oldParentIds[id] = oldParentId // Empty string if root.
+		if oldParentId == c.ParentId {
+			c.noNest[id] = true
+		}
 	}
 	if len(errs) > 0 {
 		return BoolStringer(false), errors.Join(errs...)
 	}
+	// Nothing is in the way of any of them: nest.
+	for _, id := range c.Ids {
+		if c.noNest[id] {
+			continue
+		}
+		if err := w.Nest(id, c.ParentId).Err(); err != nil {
+			return BoolStringer(false), err
+		}
+	}
 	return BoolStringer(true), nil
 }
 
@@ -311,7 +325,7 @@ type ItemFreeCommand struct {
 }
 
 func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
-	oldParentIds := make(map[string]string)
+	c.oldParentIds = make(map[string]string)
 	errs := make([]error, 0)
 
 	for _, id := range c.Ids {
@@ -320,13 +334,17 @@ func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
-		w.Free(id)
+		c.oldParentIds[id] = oldParentId // Empty string if root.
 	}
 
 	if len(errs) > 0 {
 		return BoolStringer(false), errors.Join(errs...)
 	}
+	for _, id := range c.Ids {
+		if err := w.Free(id).Err(); err != nil {
+			return BoolStringer(false), err
+		}
+	}
 	return BoolStringer(true), nil
 }
 
-- 
2.43.0


From 8582bbc1b40a3494e6eb8dc71062c952c4e6ecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 11/30] fix: redo executes the undone command, and a new
 command replaces the undone ones

---
 pkg/app/main.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index 2dfdcb4..95bea4a 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -6,6 +6,7 @@ import (
 	"github.com/williamflynt/topolith/pkg/grammar"
 	"github.com/williamflynt/topolith/pkg/persistence"
 	"github.com/williamflynt/topolith/pkg/world"
+	"slices"
 )
 
 type App interface {
@@ -87,9 +88,18 @@ func (h *app) Persistence() persistence.Persistence {
 // --- INTERNAL ---
 
 func (h *app) exec(c Command) (fmt.Stringer, error) {
+	o, err := c.Execute(h.world)
+	if err != nil {
+		// The Command did nothing, so there is nothing to undo or redo.
+		return o, err
+	}
+	if h.CanRedo() {
+		// The undone Commands are no longer reachable.
+		h.commands = slices.Clone(h.commands[:h.commandsIdx+1])
+	}
 	h.commands = append(h.commands, c)
 	h.commandsIdx++
-	return c.Execute(h.world)
+	return o, nil
 }
 
 func (h *app) undo() (error, int) {
@@ -111,7 +121,7 @@ func (h *app) redo() (error, int) {
 	if h.commandsIdx >= len(h.commands)-1 {
 		return nil, 0
 	}
-	_, err := h.commands[h.commandsIdx].Execute(h.world)
+	_, err := h.commands[h.commandsIdx+1].Execute(h.world)
 	if err != nil {
 		// We aren't going to validate state of the World. But a problem happened.
 		// Clear app, reset commandsIdx, and return the error.
-- 
2.43.0


From a8f3149c24bf84547649b3d7354d0939a031873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 12/30] fix: equality of worlds and trees does not depend on
 enumeration order

---
 pkg/world/tree.go  | 2 +-
 pkg/world/world.go | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 284f5a3..c29350e 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -73,7 +73,7 @@ func TreeEqual(t1, t2 Tree) bool {
 		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
 	})
 	sort.Slice(components2Slice, func(i, j int) bool {
-		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
+		return components2Slice[i].Item().Id < components2Slice[j].Item().Id
 	})
 	// Compare recursively.
 	for i, c1 := range components1Slice {
diff --git a/pkg/world/world.go b/pkg/world/world.go
index 96b2977..e66a7d7 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -214,9 +214,15 @@ func WorldEqual(w1, w2 World) bool {
 		return false
 	}
 	sort.Slice(rels1, func(i, j int) bool {
+		if rels1[i].From.Id == rels1[j].From.Id {
+			return rels1[i].To.Id < rels1[j].To.Id
+		}
 		return rels1[i].From.Id < rels1[j].From.Id
 	})
 	sort.Slice(rels2, func(i, j int) bool {
+		if rels2[i].From.Id == rels2[j].From.Id {
+			return rels2[i].To.Id < rels2[j].To.Id
+		}
 		return rels2[i].From.Id < rels2[j].From.Id
 	})
 	for i, rel1 := range rels1 {
-- 
2.43.0


From 2200c1875073662edfe17a30ea665afc5f0bb518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 13/30] fix: undoing item delete restores the item's place,
 components and relationships

---
 pkg/app/command.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index bf25334..2a54cf2 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -234,8 +234,11 @@ func (c *ItemClearCommand) Undo(w world.World) error {
 // ItemDeleteCommand represents a delete command for Item.
 type ItemDeleteCommand struct {
 	CommandBase
-	oldParams world.ItemParams
-	noDelete  bool
+	oldParams     world.ItemParams
+	oldParentId   string
+	oldComponents []string
+	oldRels       []world.Rel
+	noDelete      bool
 }
 
 func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
@@ -249,6 +252,9 @@ func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
 	c.oldParams.Type = strPtr(world.StringFromItemType(item.Type))
 	c.oldParams.Mechanism = strPtr(item.Mechanism)
 	c.oldParams.Expanded = strPtr(item.Expanded)
+	c.oldParentId, _ = w.Parent(c.Id)
+	c.oldComponents, _ = w.Components(c.Id)
+	c.oldRels = append(w.RelFrom(c.Id, true), w.RelTo(c.Id, true)...)
 	return world.Item{}, w.ItemDelete(c.Id).Err()
 }
 
@@ -256,7 +262,31 @@ func (c *ItemDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.ItemCreate(c.Id, c.oldParams).Err()
+	if err := w.ItemCreate(c.Id, c.oldParams).Err(); err != nil {
+		return err
+	}
+	if c.oldParentId != "" {
+		if err := w.Nest(c.Id, c.oldParentId).Err(); err != nil {
+			return err
+		}
+	}
+	for _, id := range c.oldComponents {
+		if err := w.Nest(id, c.Id).Err(); err != nil {
+			return err
+		}
+	}
+	for _, rel := range c.oldRels {
+		params := world.RelParams{
+			Verb:      strPtr(rel.Verb),
+			Mechanism: strPtr(rel.Mechanism),
+			Async:     boolPtr(rel.Async),
+			Expanded:  strPtr(rel.Expanded),
+		}
+		if err := w.RelCreate(rel.From.Id, rel.To.Id, params).Err(); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // ItemNestCommand represents a nest command for Item.
-- 
2.43.0


From 66da72cc60ee6a334f80cb0f390c1f61ad99bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:30 +0000
Subject: [PATCH 14/30] fix: a world's id, name and description survive its
 text form

---
 pkg/world/world.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index e66a7d7..0e2a06a 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -97,17 +97,16 @@ func FromString(s string) (World, error) {
 		return nil, errors.New("error parsing World").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
-	w := CreateWorld(p.WorldParams["name"])
+	// The Parser leaves the quotes around the name and expanded.
+	w := CreateWorld(strings.Trim(p.WorldParams["name"], `"`))
 
-	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil && version != 0 {
-		w.SetVersion(version)
-	}
-	if p.WorldParams["id"] != "" {
-		w.SetId(p.WorldParams["id"])
-	}
-	if p.WorldParams["expanded"] != "" {
-		w.SetExpanded(p.WorldParams["expanded"])
+	version, err := strconv.Atoi(p.WorldParams["version"])
+	if err != nil {
+		return nil, errors.New("invalid World version").UseCode(errors.TopolithErrorInvalid).WithError(err).WithData(errors.KvPair{Key: "version", Value: p.WorldParams["version"]})
 	}
+	w.SetVersion(version)
+	w.SetId(p.WorldParams["id"])
+	w.SetExpanded(strings.Trim(p.WorldParams["expanded"], `"`))
 
 	for _, itemStr := range p.ItemStrings {
 		item, err := ItemFromString(itemStr)
@@ -271,7 +270,7 @@ func (w *world) String() string {
 	for _, rel := range w.Rels {
 		allRels = append(allRels, rel.String())
 	}
-	return fmt.Sprintf("$$world\nversion=%d\nid=%s\nname=%s\nexpanded=%s\n%s\n%s\nendworld$$",
+	return fmt.Sprintf("$$world\nversion=%d\nid=\"%s\"\nname=\"%s\"\nexpanded=\"%s\"\n%s\n%s\nendworld$$",
 		w.Version_,
 		w.Id_,
 		w.Name_,
-- 
2.43.0


From e941875bd607db43654f66cda885d1930c36cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:31 +0000
Subject: [PATCH 15/30] fix: text that is not a world is not read as an empty
 world

---
 pkg/world/world.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 0e2a06a..17ada4e 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -96,6 +96,9 @@ func FromString(s string) (World, error) {
 	if err != nil {
 		return nil, errors.New("error parsing World").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
 	}
+	if p.StmtType != "WorldObject" {
+		return nil, errors.New("not a World").UseCode(errors.TopolithErrorInvalid).WithDescription("not a World").WithData(errors.KvPair{Key: "input", Value: s})
+	}
 
 	// The Parser leaves the quotes around the name and expanded.
 	w := CreateWorld(strings.Trim(p.WorldParams["name"], `"`))
-- 
2.43.0


From fcb484a3709e3f9e0076a7201c60d1072998a0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:33 +0000
Subject: [PATCH 16/30] fix: an item with the id nil does not swallow the other
 items when a world is read

---
 pkg/world/world.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 17ada4e..eefc6ee 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -130,13 +130,18 @@ func FromString(s string) (World, error) {
 	type queueItem struct {
 		node     grammar.Node
 		parentId string
+		isRoot   bool
 	}
-	stack := []queueItem{{p.Tree, ""}}
+	stack := []queueItem{{node: p.Tree, isRoot: strings.HasPrefix(p.TreeString, "tree{nil")}}
 	for len(stack) > 0 {
 		current := stack[len(stack)-1]
 		stack = stack[:len(stack)-1]
+		parentId := current.node.Id
+		if current.isRoot {
+			parentId = "" // There may be an Item with the ID "nil", but the root isn't it.
+		}
 		for _, child := range current.node.Children {
-			stack = append(stack, queueItem{child, current.node.Id})
+			stack = append(stack, queueItem{node: child, parentId: parentId})
 		}
 		if current.parentId != "" {
 			w.Nest(current.node.Id, current.parentId)
-- 
2.43.0


From c760d8e6eab9e03ffaf76d26f41e9e970bfb9a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:39 +0000
Subject: [PATCH 17/30] fix: saving a world replaces its file in one durable
 step

---
 pkg/persistence/main.go | 55 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index b7b9761..96aea4e 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -46,7 +46,60 @@ func (fp *filePersistence) Save(world world.World) error {
 
 	filePath := filepath.Join(fp.directory, world.Name()+".world")
 	data := world.String()
-	return os.WriteFile(filePath, []byte(data), 0644)
+	return writeFile(filePath, []byte(data))
+}
+
+// writeFile replaces the content of a file in one durable step.
+// If it fails or is cut short, the file has either its old content or the new content.
+func writeFile(filePath string, data []byte) error {
+	dir := filepath.Dir(filePath)
+	tmp, err := os.CreateTemp(dir, "save-*.tmp")
+	if err != nil {
+		return err
+	}
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(0644)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), filePath)
+	}
+	if err != nil {
+		_ = os.Remove(tmp.Name())
+		return err
+	}
+	return syncDirs(dir)
+}
+
+// syncDirs forces the entries of the directory, and of those above it, to stable storage.
+// The ones above may be new as well.
+func syncDirs(dir string) error {
+	if runtime.GOOS == "windows" {
+		return nil // Directories can't be synced there.
+	}
+	for current := dir; ; current = filepath.Dir(current) {
+		d, err := os.Open(current)
+		if err != nil && current != dir && os.IsPermission(err) {
+			return nil // Not readable, so not one that we made.
+		}
+		if err != nil {
+			return err
+		}
+		err = d.Sync()
+		_ = d.Close()
+		if err != nil {
+			return err
+		}
+		if current == filepath.Dir(current) {
+			return nil
+		}
+	}
 }
 
 // Load loads a world from a file.
-- 
2.43.0


From 66f52a4925a2608af86671d888e10824eefff769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:41 +0000
Subject: [PATCH 18/30] fix: refuse to save a world whose name would leave the
 storage directory

---
 pkg/persistence/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index 96aea4e..560644f 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -1,6 +1,7 @@
 package persistence
 
 import (
+	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/world"
 	"os"
 	"path/filepath"
@@ -40,6 +41,9 @@ func getDefaultDirectory() string {
 
 // Save saves a world to a file.
 func (fp *filePersistence) Save(world world.World) error {
+	if fileName := world.Name() + ".world"; filepath.Base(fileName) != fileName {
+		return errors.New("world name cannot be a file name").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "name", Value: world.Name()})
+	}
 	if err := os.MkdirAll(fp.directory, 0755); err != nil {
 		return err
 	}
-- 
2.43.0


From fbba69ce73f66845cfa3f7d5e5fe4bff1b760c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:42 +0000
Subject: [PATCH 19/30] fix: every listed world can be loaded by its name

---
 pkg/persistence/main.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index 560644f..207c0a9 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -108,11 +108,11 @@ func syncDirs(dir string) error {
 
 // Load loads a world from a file.
 func (fp *filePersistence) Load(name string) (world.World, error) {
-	filePath := name
-	if filepath.Ext(name) != ".world" {
-		filePath = filepath.Join(fp.directory, name+".world")
+	data, err := os.ReadFile(filepath.Join(fp.directory, name+".world"))
+	if os.IsNotExist(err) && filepath.Ext(name) == ".world" {
+		// Not the name of a world. It may be the path to a world file.
+		data, err = os.ReadFile(name)
 	}
-	data, err := os.ReadFile(filePath)
 	if err != nil {
 		return nil, err
 	}
@@ -129,7 +129,7 @@ func (fp *filePersistence) ListWorlds() ([]string, error) {
 
 	var worlds []string
 	for _, file := range files {
-		if filepath.Ext(file.Name()) == ".world" {
+		if filepath.Ext(file.Name()) == ".world" && !file.IsDir() {
 			worlds = append(worlds, file.Name()[:len(file.Name())-len(filepath.Ext(file.Name()))])
 		}
 	}
-- 
2.43.0


From 9819e3d2ad59719b7c79bbaf3968060c297d6a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:03 +0000
Subject: [PATCH 20/30] fix: quoted identifiers in a list keep their spaces

---
 pkg/grammar/grammar.peg    | 2 +-
 pkg/grammar/grammar.peg.go | 4 ++--
 pkg/grammar/main.go        | 8 +++++++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index de250c3..bf1a2e1 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -148,7 +148,7 @@ IdentifierList
   <- <Identifier Identifier*>
   {
     p.InputAttributes.ResourceId = ""
-    ids := strings.Fields(text)
+    ids := listedIdentifier.FindAllString(text, -1)
     for _, id := range ids {
       p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
     }
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index b15330a..9b161e7 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -699,7 +699,7 @@ func (p *Parser) Execute() {
 		case ruleAction18:
 
 			p.InputAttributes.ResourceId = ""
-			ids := strings.Fields(text)
+			ids := listedIdentifier.FindAllString(text, -1)
 			for _, id := range ids {
 				p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
 			}
@@ -5380,7 +5380,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 141 Action18 <- <{
 		   p.InputAttributes.ResourceId = ""
-		   ids := strings.Fields(text)
+		   ids := listedIdentifier.FindAllString(text, -1)
 		   for _, id := range ids {
 		     p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
 		   }
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index 381db04..a3abf41 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -1,6 +1,9 @@
 package grammar
 
-import "strings"
+import (
+	"regexp"
+	"strings"
+)
 
 // TODO(wf 27 May 2024): We shouldn't be setting raw strings
 //  (ex: `Flags` -> []Flag)
@@ -70,6 +73,9 @@ func Parse(s string) (*Parser, error) {
 
 // --- INTERNAL ---
 
+// listedIdentifier matches one identifier of a list. If it is quoted it may contain spaces.
+var listedIdentifier = regexp.MustCompile(`"[^"]*"|[^"\s]+`)
+
 func cleanString(s string) string {
 	return strings.Trim(strings.TrimSpace(s), "\"")
 }
-- 
2.43.0


From b1242fc43741dc1d7460581fc86bc92dc532091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:04 +0000
Subject: [PATCH 21/30] fix: rel fetch answers the same way every time when
 several relationships match

---
 pkg/app/command.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 2a54cf2..51f7ccf 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -1,11 +1,13 @@
 package app
 
 import (
+	"cmp"
 	"fmt"
 	mapset "github.com/deckarep/golang-set/v2"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
 	"github.com/williamflynt/topolith/pkg/world"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -522,6 +524,15 @@ func (c *RelFetchCommand) Execute(w world.World) (fmt.Stringer, error) {
 	if len(rels) == 0 {
 		return world.Rel{}, errors.New("could not find Rel").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: c.Id})
 	}
+	// Several may match. Prefer the exact one, then the first by ID.
+	slices.SortFunc(rels, func(a, b world.Rel) int {
+		return cmp.Or(strings.Compare(a.From.Id, b.From.Id), strings.Compare(a.To.Id, b.To.Id))
+	})
+	for _, rel := range rels {
+		if rel.From.Id == c.Id && rel.To.Id == c.ToId {
+			return rel, nil
+		}
+	}
 	return rels[0], nil
 }
 
-- 
2.43.0


From fe540dcf35f5fefc8a19db474660cf8842c1bd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:48 +0000
Subject: [PATCH 22/30] fix: the message of an error status ends where its
 quotes end

---
 pkg/grammar/grammar.peg    |  2 +-
 pkg/grammar/grammar.peg.go |  4 ++--
 pkg/grammar/main.go        | 12 ++++++++++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index bf1a2e1..f9e8f6b 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -125,7 +125,7 @@ StatusObject
   <- ErrCode (ERROR / OK) <StringLike*>
   {
     p.StmtType = "Status"
-    p.Response.Status.Message = cleanString(text)
+    p.Response.Status.Message = statusMessage(text)
   }
 
 ErrCode <- <Number> { p.Response.Status.Code = p.number }
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 9b161e7..f17b9f1 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -684,7 +684,7 @@ func (p *Parser) Execute() {
 		case ruleAction13:
 
 			p.StmtType = "Status"
-			p.Response.Status.Message = cleanString(text)
+			p.Response.Status.Message = statusMessage(text)
 
 		case ruleAction14:
 			p.Response.Status.Code = p.number
@@ -5365,7 +5365,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 136 Action13 <- <{
 		   p.StmtType = "Status"
-		   p.Response.Status.Message = cleanString(text)
+		   p.Response.Status.Message = statusMessage(text)
 		 }> */
 		nil,
 		/* 137 Action14 <- <{ p.Response.Status.Code = p.number }> */
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index a3abf41..dcccb20 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -79,3 +79,15 @@ var listedIdentifier = regexp.MustCompile(`"[^"]*"|[^"\s]+`)
 func cleanString(s string) string {
 	return strings.Trim(strings.TrimSpace(s), "\"")
 }
+
+// statusMessage returns the message of a status. If it is quoted it ends where its quotes end: an error status
+// may go on with other things.
+func statusMessage(s string) string {
+	s = strings.TrimSpace(s)
+	if strings.HasPrefix(s, `"`) {
+		if end := strings.Index(s[1:], `"`); end >= 0 {
+			return s[1 : 1+end]
+		}
+	}
+	return cleanString(s)
+}
-- 
2.43.0


From cd4d6ae2534b945b1c4159667d7aa293e22dca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:40 +0000
Subject: [PATCH 23/30] fix: the text of a hierarchy is read with its root
 item, and with items called nil

---
 pkg/world/tree.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index c29350e..d5b1efb 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -53,7 +53,14 @@ func TreeFromString(s string) (Tree, map[string]Item, error) {
 		itemMap[item.Id] = item
 	}
 
-	t, err := convertNodeToTree(p.Tree, itemMap, nil)
+	// Items leave this map when they get their place in the Tree.
+	unplaced := make(map[string]Item, len(itemMap))
+	for id, item := range itemMap {
+		unplaced[id] = item
+	}
+	// Any Item may be called "nil", so the ID doesn't tell whether the root has an Item.
+	hasItem := !strings.HasPrefix(p.TreeString, "tree{nil::")
+	t, err := convertNodeToTree(p.Tree, unplaced, nil, hasItem)
 	return t, itemMap, err
 }
 
@@ -89,23 +96,23 @@ func TreeEqual(t1, t2 Tree) bool {
 }
 
 // convertNodeToTree recursively converts a grammar.Node to a Tree.
-func convertNodeToTree(node grammar.Node, itemMap map[string]Item, parent *tree) (*tree, error) {
+func convertNodeToTree(node grammar.Node, itemMap map[string]Item, parent *tree, hasItem bool) (*tree, error) {
 	var itemPtr *Item
-	if parent != nil {
+	if hasItem {
 		item, ok := itemMap[node.Id]
 		if !ok {
 			return parent, errors.New("Item not found in map").UseCode(errors.TopolithErrorNotFound).WithDescription("Item not found in map").WithData(errors.KvPair{Key: "id", Value: node.Id})
 		}
 		itemPtr = &item
+		delete(itemMap, node.Id) // Prevent cycles.
 	}
-	delete(itemMap, node.Id) // Prevent cycles.
 	t := &tree{
 		item:       itemPtr,
 		components: mapset.NewSet[Tree](),
 		parent:     parent,
 	}
 	for _, childNode := range node.Children {
-		childTree, err := convertNodeToTree(childNode, itemMap, t)
+		childTree, err := convertNodeToTree(childNode, itemMap, t, true)
 		if err != nil {
 			return t, err
 		}
-- 
2.43.0


From 07648034ff8c864c13c98eeba15183bdc757f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:07 +0000
Subject: [PATCH 24/30] fix: a hierarchy read from an empty text is its own,
 not the one shared by all

---
 pkg/world/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index d5b1efb..52c0ae0 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -36,7 +36,7 @@ type Tree interface {
 // `tree{nil::[tree{item "2"::[tree{item "1"::[]}]} tree{item "3"::[]}]}`
 func TreeFromString(s string) (Tree, map[string]Item, error) {
 	if s == "" {
-		return emptyTree, map[string]Item{}, nil
+		return newTree(nil, nil), map[string]Item{}, nil
 	}
 
 	p, err := grammar.Parse(s)
-- 
2.43.0


From cea3208524691f550d486cb12e8910ab801d9c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:07 +0000
Subject: [PATCH 25/30] fix: deleting the item at the root of a hierarchy
 leaves its components in place

---
 pkg/world/tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 52c0ae0..6e2c674 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -214,6 +214,11 @@ func (t *tree) Delete(id string) {
 		// The item doesn't exist here.
 		return
 	}
+	if root, ok := found.(*tree); ok && root.parent == nil {
+		// The root stays, without Item, as the parent of its Components.
+		root.item = nil
+		return
+	}
 	foundComponents := found.Components().ToSlice()
 	found.Parent().Components().Remove(found)
 	for _, c := range foundComponents {
-- 
2.43.0


From 5ba3186eb44b813b46095cbcd045da21d2f22c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:41 +0000
Subject: [PATCH 26/30] fix: the history that is reported is a copy, which the
 caller may keep and change

---
 pkg/app/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index 95bea4a..c7e0569 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -70,7 +70,7 @@ func (h *app) Exec(s string) string {
 }
 
 func (h *app) History() []Command {
-	return h.commands[:h.commandsIdx+1]
+	return slices.Clone(h.commands[:h.commandsIdx+1]) // What the caller does with it is not our history.
 }
 
 func (h *app) CanUndo() bool {
-- 
2.43.0


From 6a63d02094d533d13216f13232f3fb40d25a59ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:44 +0000
Subject: [PATCH 27/30] fix: nothing can be added above the root of a Tree,
 where it would reach every other Tree

---
 pkg/world/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 6e2c674..9254db5 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -153,6 +153,10 @@ func (t *tree) AddOrMove(item *Item) error {
 	if item == nil {
 		return errors.New("cannot add nil Item to Tree").UseCode(errors.TopolithErrorInvalid)
 	}
+	if t == emptyTree {
+		// It stands for the parent of every root, so it has to stay empty.
+		return errors.New("cannot add Item above the root of a Tree").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "id", Value: item.Id})
+	}
 	if t.Has(item.Id, true) {
 		// Already in this specific Tree - noop.
 		return nil
-- 
2.43.0


From f8205abea88a342560c52dcf3498ba3aff5439b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:44 +0000
Subject: [PATCH 28/30] fix: RelCreate names the Item that is missing when it
 is the second one

---
 pkg/world/world.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index eefc6ee..5f11903 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -497,9 +497,9 @@ func (w *world) RelCreate(fromId, toId string, params RelParams) WorldWithRel {
 	toItem, ok := w.ItemFetch(toId)
 	if !ok {
 		w.latestErr = errors.
-			New("fromId for Rel not found").
+			New("toId for Rel not found").
 			UseCode(errors.TopolithErrorNotFound).
-			WithData(errors.KvPair{Key: "fromId", Value: fromId})
+			WithData(errors.KvPair{Key: "toId", Value: toId})
 		return w
 	}
 	existing, ok := w.Rels[relIdFromIds(fromId, toId)]
-- 
2.43.0


From 0c13f5a9b47540057b6074dc08800ea0da40f211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:44 +0000
Subject: [PATCH 29/30] fix: errors made from the same error no longer
 overwrite each other's data and causes

---
 pkg/errors/main.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/errors/main.go b/pkg/errors/main.go
index 42aeddd..545809c 100644
--- a/pkg/errors/main.go
+++ b/pkg/errors/main.go
@@ -1,6 +1,9 @@
 package errors
 
-import "fmt"
+import (
+	"fmt"
+	"slices"
+)
 
 // TopolithErrorCode is an iota that represents the error code of a TopolithError.
 type TopolithErrorCode int
@@ -37,7 +40,7 @@ func (e TopolithError) WithDescription(description string) TopolithError {
 }
 
 func (e TopolithError) WithData(data ...KvPair) TopolithError {
-	e.Data = append(e.Data, data...)
+	e.Data = append(slices.Clip(e.Data), data...) // Never into memory that another error uses too.
 	return e
 }
 
@@ -47,9 +50,7 @@ func (e TopolithError) ClearData() TopolithError {
 }
 
 func (e TopolithError) WithError(errs ...error) TopolithError {
-	for _, err := range errs {
-		e.errs = append(e.errs, err)
-	}
+	e.errs = append(slices.Clip(e.errs), errs...) // Never into memory that another error uses too.
 	return e
 }
 
-- 
2.43.0


From 18a36f94cb1788c9a42befec3113eb93a8d09c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:44 +0000
Subject: [PATCH 30/30] fix: a nil cause no longer hides the causes that follow
 it

---
 pkg/errors/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/errors/main.go b/pkg/errors/main.go
index 545809c..28aa9b4 100644
--- a/pkg/errors/main.go
+++ b/pkg/errors/main.go
@@ -50,7 +50,12 @@ func (e TopolithError) ClearData() TopolithError {
 }
 
 func (e TopolithError) WithError(errs ...error) TopolithError {
-	e.errs = append(slices.Clip(e.errs), errs...) // Never into memory that another error uses too.
+	e.errs = slices.Clip(e.errs) // Never append into memory that another error uses too.
+	for _, err := range errs {
+		if err != nil {
+			e.errs = append(e.errs, err)
+		}
+	}
 	return e
 }
 
-- 
2.43.0

