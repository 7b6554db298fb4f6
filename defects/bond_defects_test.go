package bond

// Demonstrations of the defects found while building the checks. Run with
// run.sh (overlay, scratch directories only).

import (
	"context"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/go-bond/bond/serializers"
	"github.com/stretchr/testify/require"
)

type dRow struct {
	ID   uint64 `json:"id"`
	Acc  uint32 `json:"acc,omitempty"`
	Name string `json:"name,omitempty"`
	Raw  []byte `json:"raw,omitempty"`
}

func dOpen(t *testing.T) DB {
	db, err := Open(filepath.Join(t.TempDir(), "db"), &Options{Serializer: &serializers.JsonSerializer{}})
	require.NoError(t, err)
	t.Cleanup(func() { _ = db.Close() })
	return db
}

func dTable(db DB, id TableID) (Table[*dRow], *Index[*dRow]) {
	tab := NewTable[*dRow](TableOptions[*dRow]{DB: db, TableID: id, TableName: "d",
		TablePrimaryKeyFunc: func(b KeyBuilder, r *dRow) []byte { return b.AddUint64Field(r.ID).Bytes() }})
	idx := NewIndex[*dRow](IndexOptions[*dRow]{IndexID: 1, IndexName: "acc",
		IndexKeyFunc: func(b KeyBuilder, r *dRow) []byte { return b.AddUint32Field(r.Acc).Bytes() }})
	_ = tab.AddIndex([]*Index[*dRow]{idx})
	return tab, idx
}

var dctx = context.Background()

func dIdxCount(db DB, table TableID, idx IndexID) int {
	it := db.Iter(&IterOptions{})
	defer it.Close()
	n := 0
	for it.First(); it.Valid(); it.Next() {
		if it.Key()[0] == byte(table) && it.Key()[1] == byte(idx) {
			n++
		}
	}
	return n
}

func TestD_BatchCloseCallbacks(t *testing.T) {
	db := dOpen(t)
	b := db.Batch(BatchTypeWriteOnly)
	committed, closed := 0, 0
	b.OnCommitted(func(Batch) { committed++ })
	b.OnClose(func(Batch) { closed++ })
	require.NoError(t, b.Close())
	require.Equal(t, 0, committed)
	require.Equal(t, 1, closed)
}

func TestD_AddIndexDuplicateReleasesLock(t *testing.T) {
	db := dOpen(t)
	tab, idx := dTable(db, 1)
	require.Error(t, tab.AddIndex([]*Index[*dRow]{idx}))
	done := make(chan struct{})
	go func() { tab.Indexes(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("table lock still held after a failed AddIndex")
	}
}

func TestD_UpsertDuplicateRows(t *testing.T) {
	db := dOpen(t)
	tab, idx := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 10}}))
	require.NoError(t, tab.Upsert(dctx, []*dRow{{ID: 5, Acc: 50}, {ID: 1, Acc: 20}, {ID: 1, Acc: 30}}, TableUpsertOnConflictReplace[*dRow]))
	r, err := tab.GetPoint(dctx, &dRow{ID: 1})
	require.NoError(t, err)
	require.Equal(t, uint32(30), r.Acc)
	require.Equal(t, uint64(1), r.ID)
	require.Equal(t, 2, dIdxCount(db, 1, 1))
	_ = idx
}

func TestD_UpdateDuplicateLastWins(t *testing.T) {
	db := dOpen(t)
	tab, _ := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1}, {ID: 2}, {ID: 3}}))
	var rows []*dRow
	for i := 1; i <= 60; i++ {
		rows = append(rows, &dRow{ID: uint64(i%3) + 1, Acc: uint32(i)})
	}
	require.NoError(t, tab.Update(dctx, rows))
	for i := 58; i <= 60; i++ {
		r, err := tab.GetPoint(dctx, rows[i-1])
		require.NoError(t, err)
		require.Equal(t, uint32(i), r.Acc)
	}
}

func TestD_InsertDuplicateAcrossChunks(t *testing.T) {
	db := dOpen(t)
	tab, _ := dTable(db, 1)
	var rows []*dRow
	for i := 0; i < persistentBatchSize; i++ {
		rows = append(rows, &dRow{ID: uint64(i)})
	}
	rows = append(rows, &dRow{ID: 7, Acc: 9})
	require.Error(t, tab.Insert(dctx, rows))
}

func TestD_UpdateDuplicateAcrossChunksIndex(t *testing.T) {
	db := dOpen(t)
	tab, _ := dTable(db, 1)
	var rows []*dRow
	for i := 0; i < persistentBatchSize; i++ {
		rows = append(rows, &dRow{ID: uint64(i), Acc: 1})
	}
	require.NoError(t, tab.Insert(dctx, rows))
	var upd []*dRow
	for i := 0; i < persistentBatchSize; i++ {
		upd = append(upd, &dRow{ID: uint64(i), Acc: 2})
	}
	upd = append(upd, &dRow{ID: 7, Acc: 3})
	require.NoError(t, tab.Update(dctx, upd))
	require.Equal(t, persistentBatchSize, dIdxCount(db, 1, 1))
}

func TestD_UpdateStaleOldRow(t *testing.T) {
	db := dOpen(t)
	tab, _ := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 5}, {ID: 2, Acc: 0}}))
	require.NoError(t, tab.Update(dctx, []*dRow{{ID: 1, Acc: 6}, {ID: 2, Acc: 7}}))
	require.Equal(t, 2, dIdxCount(db, 1, 1))
}

func TestD_SelectorPointFF(t *testing.T) {
	db := dOpen(t)
	tab, idx := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 255}, {ID: 2, Acc: 256}, {ID: 3, Acc: 300}}))
	var out []*dRow
	require.NoError(t, tab.ScanIndex(dctx, idx, NewSelectorPoint(&dRow{Acc: 255}), &out, false))
	require.Len(t, out, 1)
	out = nil
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 511, Acc: 9}, {ID: 512, Acc: 9}, {ID: 600, Acc: 9}}))
	require.NoError(t, tab.ScanIndex(dctx, tab.PrimaryIndex(), NewSelectorRange(&dRow{ID: 3}, &dRow{ID: 511}), &out, false))
	require.Len(t, out, 2)
}

func TestD_RestorePrefixTables(t *testing.T) {
	db := dOpen(t)
	t1, _ := dTable(db, 1)
	t10, _ := dTable(db, 10)
	require.NoError(t, t1.Insert(dctx, []*dRow{{ID: 1}}))
	require.NoError(t, t10.Insert(dctx, []*dRow{{ID: 1}}))
	dir := filepath.Join(t.TempDir(), "exp_index")
	require.NoError(t, db.Dump(dctx, dir, []TableID{1, 10}, true))
	db2 := dOpen(t)
	require.NoError(t, db2.Restore(dctx, dir, []TableID{1}, false))
	require.Equal(t, 1, dIdxCount(db2, 1, 0))
	require.Equal(t, 0, dIdxCount(db2, 10, 0))
}

func TestD_DumpClosesIterators(t *testing.T) {
	db, err := Open(filepath.Join(t.TempDir(), "db"), &Options{})
	require.NoError(t, err)
	tab, _ := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1}}))
	require.NoError(t, db.Backend().Flush())
	require.NoError(t, db.Dump(dctx, filepath.Join(t.TempDir(), "e"), []TableID{1}, true))
	require.NoError(t, db.Close())
}

func TestD_OpenFailureReleases(t *testing.T) {
	dir := filepath.Join(t.TempDir(), "db")
	db, err := Open(dir, nil)
	require.NoError(t, err)
	require.NoError(t, db.Set(bondDataVersionKey(), []byte("7"), Sync))
	require.NoError(t, db.Close())
	_, err = Open(dir, nil)
	require.Error(t, err)
	_, err = Open(dir, nil)
	require.ErrorContains(t, err, "bond db version")
}

func TestD_ScanSkipWithoutGet(t *testing.T) {
	db := dOpen(t)
	tab, idx := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 1}, {ID: 2, Acc: 1}, {ID: 3, Acc: 1}}))
	n := 0
	err := tab.ScanIndexForEach(dctx, idx, NewSelectorPoint(&dRow{Acc: 1}), func(k KeyBytes, l Lazy[*dRow]) (bool, error) {
		n++
		if n > 100 {
			return false, errors.New("endless scan")
		}
		if n == 1 {
			_, err := l.Get()
			return true, err
		}
		return true, nil
	}, false)
	require.NoError(t, err)
	require.Equal(t, 3, n)
}

func TestD_ScanDoubleGet(t *testing.T) {
	db := dOpen(t)
	tab, idx := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 1}, {ID: 2, Acc: 1}, {ID: 3, Acc: 1}}))
	var seen []uint64
	err := tab.ScanIndexForEach(dctx, idx, NewSelectorPoint(&dRow{Acc: 1}), func(k KeyBytes, l Lazy[*dRow]) (bool, error) {
		r, err := l.Get()
		if err != nil {
			return false, err
		}
		r2, err := l.Get()
		if err != nil {
			return false, err
		}
		if r.ID != r2.ID {
			return false, fmt.Errorf("row changed from %d to %d", r.ID, r2.ID)
		}
		seen = append(seen, r.ID)
		return true, nil
	}, false)
	require.NoError(t, err)
	require.Equal(t, []uint64{1, 2, 3}, seen)
}

func TestD_IterNilBatch(t *testing.T) {
	db := dOpen(t)
	tab, _ := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1}}))
	var out []*dRow
	require.NotPanics(t, func() { require.NoError(t, tab.Scan(dctx, &out, false, nil)) })
	require.Len(t, out, 1)
}

func TestD_EmptyPoints(t *testing.T) {
	db := dOpen(t)
	tab, idx := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1}}))
	var out []*dRow
	require.NotPanics(t, func() {
		require.NoError(t, tab.ScanIndex(dctx, idx, NewSelectorPoints[*dRow](), &out, false))
	})
	require.NotPanics(t, func() {
		require.NoError(t, tab.Query().With(idx, NewSelectorPoints(&dRow{Acc: 0})).After(&dRow{ID: 1, Acc: 5}).Execute(dctx, &out))
	})
}

func TestD_IntersectBatch(t *testing.T) {
	db := dOpen(t)
	tab, idx := dTable(db, 1)
	b := db.Batch(BatchTypeReadWrite)
	defer b.Close()
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 4}}, b))
	var out []*dRow
	require.NoError(t, tab.Query().With(idx, NewSelectorPoint(&dRow{Acc: 4})).
		Intersects(tab.Query().With(idx, NewSelectorPoint(&dRow{Acc: 4}))).Execute(dctx, &out, b))
	require.Len(t, out, 1)
}

func TestD_IntersectAfterLimit(t *testing.T) {
	db := dOpen(t)
	tab, idx := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 4}, {ID: 2, Acc: 4}, {ID: 3, Acc: 4}, {ID: 4, Acc: 4}}))
	var out []*dRow
	require.NoError(t, tab.Query().With(idx, NewSelectorPoint(&dRow{Acc: 4})).
		Intersects(tab.Query().With(idx, NewSelectorPoint(&dRow{Acc: 4}))).After(&dRow{ID: 1, Acc: 4}).Offset(1).Limit(1).Execute(dctx, &out))
	require.Len(t, out, 1)
	require.Equal(t, uint64(3), out[0].ID)
}

func TestD_QueryImmutable(t *testing.T) {
	db := dOpen(t)
	tab, idx := dTable(db, 1)
	q := func(a uint32) Query[*dRow] { return tab.Query().With(idx, NewSelectorPoint(&dRow{Acc: a})) }
	base := q(0).Intersects(q(1)).Intersects(q(2)).Intersects(q(3))
	a := base.Intersects(q(4))
	b := base.Intersects(q(5))
	require.Equal(t, uint32(4), a.intersects[3].indexSelector.(SelectorPoint[*dRow]).Point().Acc)
	require.Equal(t, uint32(5), b.intersects[3].indexSelector.(SelectorPoint[*dRow]).Point().Acc)
}

func TestD_OrderBytesMutates(t *testing.T) {
	in := []byte{1, 2, 3}
	IndexOrder{KeyBuilder: NewKeyBuilder(nil)}.OrderBytes(in, IndexOrderTypeDESC)
	require.Equal(t, []byte{1, 2, 3}, in)
}

func TestD_OrderMinInt(t *testing.T) {
	enc := func(i int64) string {
		return string(IndexOrder{KeyBuilder: NewKeyBuilder(nil)}.OrderInt64(i, IndexOrderTypeDESC).Bytes())
	}
	require.Less(t, enc(0), enc(math.MinInt64))
	require.Less(t, enc(math.MinInt64+1), enc(math.MinInt64))
}

func TestD_SequenceClock(t *testing.T) {
	s := &NumberSequence{lastId: uint64(time.Now().Unix()+100) << NumberSequenceBitShift}
	last := s.lastId
	id, err := s.Next()
	require.NoError(t, err)
	require.Greater(t, id, last)
}

func TestD_SyncBatchPanic(t *testing.T) {
	s := NewSyncBatch(nil)
	func() {
		defer func() { _ = recover() }()
		_ = s.WithSync(func(Batch) error { panic("x") })
	}()
	require.True(t, s.mu.TryLock())
}

func TestD_AnyScannerBatch(t *testing.T) {
	db := dOpen(t)
	tab, _ := dTable(db, 1)
	b := db.Batch(BatchTypeReadWrite)
	defer b.Close()
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1}}, b))
	n := 0
	require.NoError(t, TableAnyScanner[*dRow](tab).ScanForEach(dctx, func(KeyBytes, Lazy[any]) (bool, error) { n++; return true, nil }, false, b))
	require.Equal(t, 1, n)
}

func TestD_GetUnreadableBatch(t *testing.T) {
	db := dOpen(t)
	tab, _ := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1}}))
	b := db.Batch(BatchTypeWriteOnly)
	defer b.Close()
	_, err := tab.GetPoint(dctx, &dRow{ID: 1}, b)
	require.Error(t, err)
	require.False(t, errors.Is(err, ErrNotFound), "%v", err)
	var out []*dRow
	err = tab.Scan(dctx, &out, false, b)
	require.Error(t, err)
	_, err = tab.Get(dctx, NewSelectorPoints(&dRow{ID: 1}), b)
	require.Error(t, err)
}

func TestD_ReIndexMaxID(t *testing.T) {
	db := dOpen(t)
	tab, _ := dTable(db, 1)
	idx := NewIndex[*dRow](IndexOptions[*dRow]{IndexID: 255, IndexName: "m",
		IndexKeyFunc: func(b KeyBuilder, r *dRow) []byte { return b.AddUint32Field(r.Acc).Bytes() }})
	require.NoError(t, tab.AddIndex([]*Index[*dRow]{idx}))
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 1}}))
	require.NoError(t, db.Set(KeyEncode(Key{TableID: 1, IndexID: 255, Index: []byte{1, 0, 0, 0, 9}, PrimaryKey: []byte{1, 0, 0, 0, 0, 0, 0, 0, 9}}), nil, Sync))
	require.NoError(t, tab.ReIndex([]*Index[*dRow]{idx}))
	require.Equal(t, 1, dIdxCount(db, 1, 255))
}

func TestD_ReverseAfter(t *testing.T) {
	db := dOpen(t)
	tab, idx := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 4}, {ID: 2, Acc: 4}, {ID: 3, Acc: 4}, {ID: 4, Acc: 4}}))
	var out []*dRow
	require.NoError(t, tab.Query().With(idx, NewSelectorPoint(&dRow{Acc: 4})).Reverse().After(&dRow{ID: 3, Acc: 4}).Execute(dctx, &out))
	require.Len(t, out, 2)
	require.Equal(t, uint64(2), out[0].ID)
}

func TestD_RestoreVersionFileTruncated(t *testing.T) {
	dir := filepath.Join(t.TempDir(), "db")
	db, err := Open(dir, nil)
	require.NoError(t, err)
	require.NoError(t, db.Close())
	path := filepath.Join(dir, "bond", PebbleFormatFile)
	before, err := os.Stat(path)
	require.NoError(t, err)
	// the file is replaced, not truncated and written again
	v, err := PebbleFormatVersion(dir)
	require.NoError(t, err)
	require.NoError(t, MigratePebbleFormatVersion(dir, v+1))
	after, err := os.Stat(path)
	require.NoError(t, err)
	require.False(t, os.SameFile(before, after))
	// a crash while the new file is written
	require.NoError(t, os.WriteFile(path+".tmp", nil, 0644))
	opts := DefaultOptions()
	opts.PebbleOptions.FormatMajorVersion++
	db, err = Open(dir, opts)
	require.NoError(t, err)
	require.NoError(t, db.Close())
}

func TestD_DeleteByPrimaryKey(t *testing.T) {
	db := dOpen(t)
	tab, idx := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 4}}))
	require.NoError(t, tab.Delete(dctx, []*dRow{{ID: 1}}))
	var out []*dRow
	require.NoError(t, tab.Query().With(idx, NewSelectorPoint(&dRow{Acc: 4})).Execute(dctx, &out))
	require.Len(t, out, 0)
}

func TestD_NoLimit(t *testing.T) {
	db := dOpen(t)
	tab, _ := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1}, {ID: 2}, {ID: 3}}))
	var out []*dRow
	require.NoError(t, tab.Query().Offset(1).Limit(math.MaxUint64).Execute(dctx, &out))
	require.Len(t, out, 2)
}

func TestD_IntersectReverseAndNested(t *testing.T) {
	db := dOpen(t)
	tab, idx := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 4}, {ID: 2, Acc: 4}}))
	q := tab.Query().With(idx, NewSelectorPoint(&dRow{Acc: 4}))
	var out []*dRow
	require.NoError(t, q.Intersects(q).Reverse().Execute(dctx, &out))
	require.Equal(t, uint64(2), out[0].ID)
	require.Error(t, q.Intersects(q.Intersects(q)).Execute(dctx, &out))
}

func TestD_RestoreTwice(t *testing.T) {
	db := dOpen(t)
	tab, _ := dTable(db, 1)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1}, {ID: 2}, {ID: 3}}))
	dir := filepath.Join(t.TempDir(), "dump")
	require.NoError(t, db.Dump(dctx, dir, []TableID{1}, false))
	for i := 0; i < 2; i++ {
		to := dOpen(t)
		require.NoError(t, to.Restore(dctx, dir, []TableID{1}, false))
		tab, _ := dTable(to, 1)
		var out []*dRow
		require.NoError(t, tab.Scan(dctx, &out, false))
		require.Len(t, out, 3)
	}
}

func TestD_ScanCancelPrefetched(t *testing.T) {
	db := dOpen(t)
	tab, idx := dTable(db, 1)
	var rows []*dRow
	for i := 0; i < 10; i++ {
		rows = append(rows, &dRow{ID: uint64(i), Acc: 1})
	}
	require.NoError(t, tab.Insert(dctx, rows))
	ctx, cancel := context.WithCancel(dctx)
	n := 0
	err := tab.ScanIndexForEach(ctx, idx, NewSelectorPoint(&dRow{Acc: 1}), func(_ KeyBytes, l Lazy[*dRow]) (bool, error) {
		n++
		_, err := l.Get()
		cancel()
		return true, err
	}, false)
	require.Error(t, err)
	require.Equal(t, 1, n)
}

func TestD_ScanKeyAfterGet(t *testing.T) {
	db := dOpen(t)
	tab, idx := dTable(db, 1)
	var rows []*dRow
	for i := 0; i < 300; i++ {
		rows = append(rows, &dRow{ID: uint64(i), Acc: 1, Name: fmt.Sprint("n", i)})
	}
	require.NoError(t, tab.Insert(dctx, rows))
	n := 0
	require.NoError(t, tab.ScanIndexForEach(dctx, idx, NewSelectorPoint(&dRow{Acc: 1}), func(k KeyBytes, l Lazy[*dRow]) (bool, error) {
		row, err := l.Get()
		require.NoError(t, err)
		want := KeyEncodeRaw(1, 0, nil, nil, func(b []byte) []byte { return NewKeyBuilder(b).AddUint64Field(row.ID).Bytes() })
		require.Equal(t, fmt.Sprintf("%x", want), fmt.Sprintf("%x", []byte(k.ToDataKeyBytes())), "row %d", n)
		n++
		return true, nil
	}, false))
	require.Equal(t, 300, n)
}

func TestD_ScanNegativeKeys(t *testing.T) {
	type row struct {
		ID int64 `json:"id"`
	}
	db := dOpen(t)
	tab := NewTable[*row](TableOptions[*row]{DB: db, TableID: 7, TableName: "n",
		TablePrimaryKeyFunc: func(b KeyBuilder, r *row) []byte { return b.AddInt64Field(r.ID).Bytes() }})
	require.NoError(t, tab.Insert(dctx, []*row{{ID: -5}, {ID: 0}, {ID: 5}}))
	var rows []*row
	require.NoError(t, tab.Scan(dctx, &rows, false))
	require.Len(t, rows, 3)
	rows = nil
	err := tab.Query().Execute(dctx, &rows)
	require.NoError(t, err)
	require.Len(t, rows, 3)
}
