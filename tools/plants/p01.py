import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import demo
PLANTS = [
 dict(id="unsafe-insert-nosync", prop="C01",
  needs="power loss after a successful UnsafeInsert without a batch",
  breaks="UnsafeInsert commits its internal batch without a flush when the table has no index to maintain",
  edits=[("table_unsafe.go", """	if !externalBatch {
		err = batch.Commit(Sync)
		if err != nil {""", """	if !externalBatch {
		opt := Sync
		if len(indexes) == 0 {
			opt.Sync = false
		}
		err = batch.Commit(opt)
		if err != nil {""")],
  test=demo("""	s := &spy{DB: dOpen(t)}
	tab := NewTable[*dRow](TableOptions[*dRow]{DB: s, TableID: 7, TableName: "d",
		TablePrimaryKeyFunc: func(b KeyBuilder, r *dRow) []byte { return b.AddUint64Field(r.ID).Bytes() }}).(*_table[*dRow])
	require.NoError(t, tab.UnsafeInsert(dctx, []*dRow{{ID: 1}}))
	require.Equal(t, []WriteOptions{Sync}, s.commits)""")),
 dict(id="update-direct-set", prop="C02",
  needs="a call without a batch in which a later row of the same call fails",
  breaks="Update writes rows past its internal write-only batch, so a failing call leaves rows behind",
  edits=[("table.go", """			// update entry
			err = batch.Set(key, data, Sync)
			if err != nil {
				return err
			}

			// update indexes
			for _, idx := range indexes {""", """			// update entry
			if batchReadWrite != nil || externalBatch {
				err = batch.Set(key, data, Sync)
			} else {
				err = t.db.Set(key, data, Sync)
			}
			if err != nil {
				return err
			}

			// update indexes
			for _, idx := range indexes {""")],
  test=demo("""	db := dOpen(t)
	tab, _ := dTable(db, nil)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 1}}))
	require.Error(t, tab.Update(dctx, []*dRow{{ID: 1, Acc: 2}, {ID: 2, Acc: 2}}))
	row, err := tab.GetPoint(dctx, &dRow{ID: 1})
	require.NoError(t, err)
	require.Equal(t, uint32(1), row.Acc)""")),
 dict(id="update-index-skip-equal", prop="C03",
  needs="an update that changes an indexed field only, of a row whose serialized length stays the same, on a table with a membership filter",
  breaks="Update leaves the index entry of the stored row when the new row serializes to as many bytes",
  edits=[("table.go", """			for _, idx := range indexes {
				err = idx.OnUpdate(t, oldTr, tr, batch, indexKeyBuffer[:0], indexKeyBuffer2[:0])
				if err != nil {
					return err
				}
			}
		}

		return nil
	})""", """			for _, idx := range indexes {
				if t.filter == nil || len(data) != len(iter.Value()) {
					err = idx.OnUpdate(t, oldTr, tr, batch, indexKeyBuffer[:0], indexKeyBuffer2[:0])
				}
				if err != nil {
					return err
				}
			}
		}

		return nil
	})""")],
  test=demo("""	db := dOpen(t)
	tab, idx := dTable(db, nil)
	tab.filter = yes{}
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 1}}))
	require.NoError(t, tab.Update(dctx, []*dRow{{ID: 1, Acc: 2}}))
	require.Equal(t, []uint64{}, dIndexed(t, tab, idx, 1))
	require.Equal(t, []uint64{1}, dIndexed(t, tab, idx, 2))
}

type yes struct{ Filter }

func (yes) Add(context.Context, []byte)             {}
func (yes) MayContain(context.Context, []byte) bool { return true }

func unused() {""")),
 dict(id="update-prefix-match", prop="C05",
  needs="a variable-length primary key that is a prefix of a stored one",
  breaks="Update takes a row whose key merely starts with the wanted key for the wanted row",
  edits=[("table.go", """			if !iter.SeekGE(key) || !bytes.Equal(iter.Key(), key) {
				if err""", """			if !iter.SeekGE(key) || !bytes.HasPrefix(iter.Key(), key) {
				if err""")],
  test=demo("""	db := dOpen(t)
	tab := NewTable[*dRow](TableOptions[*dRow]{DB: db, TableID: 7, TableName: "d",
		TablePrimaryKeyFunc: func(b KeyBuilder, r *dRow) []byte { return b.AddStringField(r.Name).Bytes() }})
	require.NoError(t, tab.Insert(dctx, []*dRow{{Name: "ab"}}))
	require.Error(t, tab.Update(dctx, []*dRow{{Name: "a"}}))""")),
 dict(id="duplicate-with-filter", prop="C06",
  needs="an insert of two rows with one key on a table with a membership filter",
  breaks="with a membership filter, insert does not compare the keys of a call, although the scan it relies on does not see the call's own rows",
  edits=[("table.go", "			if t.keyDuplicate(i, keys) || t.exist(key, batch, iter) {", "			if t.filter == nil && t.keyDuplicate(i, keys) || t.exist(key, batch, iter) {")],
  test=demo("""	db := dOpen(t)
	tab, _ := dTable(db, yes{})
	require.Error(t, tab.Insert(dctx, []*dRow{{ID: 3}, {ID: 1, Acc: 1}, {ID: 1, Acc: 2}}))
}

type yes struct{ Filter }

func (yes) Add(context.Context, []byte)             {}
func (yes) MayContain(context.Context, []byte) bool { return true }

func unused() {""")),
 dict(id="secondary-scan-without-batch", prop="C07",
  needs="a secondary index scan with a batch holding an uncommitted row",
  breaks="the rows of a secondary index scan are read from the database instead of the given batch",
  edits=[("table.go", """		var err error
		prefetchedValues, err = t.get(keys, batch, valuesBuffer, true)""", """		if t.scanPrefetchSize > len(keys) {
			batch = nil
		}

		var err error
		prefetchedValues, err = t.get(keys, batch, valuesBuffer, true)"""), ("table.go", """	if len(optBatch) > 0 {
		batch = optBatch[0]
	}""", """	if len(optBatch) > 0 && optBatch[0] != nil {
		batch = optBatch[0]
	}""")],
  test=demo("""	db := dOpen(t)
	tab, idx := dTable(db, nil)
	b := db.Batch(BatchTypeReadWrite)
	defer b.Close()
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 1}}, b))
	var rows []*dRow
	require.NoError(t, tab.ScanIndex(dctx, idx, NewSelectorPoint(&dRow{Acc: 1}), &rows, false, b))
	require.Len(t, rows, 1)""")),
 dict(id="unsafe-update-late-poll", prop="C09",
  needs="cancellation while the rows of a call are being written",
  breaks="UnsafeUpdate only looks at its context for the first row",
  edits=[("table_unsafe.go", """		tr := trs[i]
		oldTr := oldTrs[i]

		select {
		case <-ctx.Done():
			return fmt.Errorf("context done: %w", ctx.Err())
		default:
		}
""", """		tr := trs[i]
		oldTr := oldTrs[i]

		if i == 0 {
			select {
			case <-ctx.Done():
				return fmt.Errorf("context done: %w", ctx.Err())
			default:
			}
		}
""")],
  test=demo("""	db := dOpen(t)
	ctx, cancel := context.WithCancel(dctx)
	s := &spy{DB: db, onSet: func([]byte) error { cancel(); return nil }}
	tab, _ := dTable(s, nil)
	rows := []*dRow{{ID: 1}, {ID: 2}}
	require.Error(t, tab.UnsafeUpdate(ctx, rows, rows))""")),
 dict(id="scan-stop-leaks-iterator", prop="C15",
  needs="a scan callback that returns an error",
  breaks="a primary scan that its callback fails does not close its iterator",
  edits=[("table.go", """		cont, err := f(it.Key(), Lazy[T]{GetFunc: getValue})
		if !cont || err != nil {
			_ = it.Close()
			return err
		}""", """		cont, err := f(it.Key(), Lazy[T]{GetFunc: getValue})
		if err != nil {
			return err
		}
		if !cont {
			_ = it.Close()
			return nil
		}""")],
  test=demo("""	db := dOpen(t)
	open := 0
	s := &spy{DB: db}
	s.onIter = func(opt *IterOptions, b ...Batch) Iterator { open++; return &countIter{s.DB.Iter(opt, b...), &open} }
	tab, _ := dTable(s, nil)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1}}))
	require.Equal(t, 0, open)
	err := tab.ScanForEach(dctx, func(KeyBytes, Lazy[*dRow]) (bool, error) { return false, errBoom }, false)
	require.Equal(t, errBoom, err)
	n := open
	it := s.DB.Iter(&IterOptions{})
	_ = it.Close()
	require.Equal(t, 0, n)
}

type countIter struct {
	Iterator
	open *int
}

func (c *countIter) Close() error {
	*c.open--
	return c.Iterator.Close()
}

func unused() {""")),
 dict(id="unsafe-insert-index-error", prop="C34",
  needs="a batch that fails to store an index entry that is not the last one",
  breaks="UnsafeInsert goes on when an index entry could not be stored",
  edits=[("table_unsafe.go", """				err = idx.OnInsert(t, tr, batch, indexKeyBuffer[:0])
				if err != nil {
					return err
				}
""", """				if e := idx.OnInsert(t, tr, batch, indexKeyBuffer[:0]); e != nil {
					err = e
					continue
				}
				err = nil
""")],
  test=demo("""	db := dOpen(t)
	fail := 1
	s := &spy{DB: db}
	s.onSet = func(k []byte) error {
		if k[1] != 0 {
			fail--
			if fail == 0 {
				return errBoom
			}
		}
		return nil
	}
	tab, _ := dTable(s, nil)
	require.NoError(t, tab.AddIndex([]*Index[*dRow]{NewIndex[*dRow](IndexOptions[*dRow]{IndexID: 2, IndexName: "x",
		IndexKeyFunc: func(b KeyBuilder, r *dRow) []byte { return b.AddUint32Field(r.Acc).Bytes() }})}))
	require.Error(t, tab.UnsafeInsert(dctx, []*dRow{{ID: 1}}))""")),
 dict(id="update-one-buffer", prop="C04",
  needs="OnUpdate called with one buffer, and a row that changes its index key",
  breaks="the keys of the old and of the new entry share one buffer, so that they are always equal and the entry is not moved",
  edits=[("index.go", """	} else if len(buffs) > 0 {
		buff = buffs[0]
	}

	var deleteKey""", """	} else if len(buffs) > 0 {
		buff, buff2 = buffs[0], buffs[0]
	}

	var deleteKey""")],
  test=demo("""	db := dOpen(t)
	tab, idx := dTable(db, nil)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 1}}))
	b := db.Batch(BatchTypeWriteOnly)
	defer b.Close()
	require.NoError(t, idx.OnUpdate(tab, &dRow{ID: 1, Acc: 1}, &dRow{ID: 1, Acc: 9}, b, make([]byte, 0, 256)))
	require.NoError(t, b.Commit(Sync))
	require.Equal(t, []uint64{}, dIndexed(t, tab, idx, 1))
	require.Equal(t, []uint64{1}, dIndexed(t, tab, idx, 9))""")),
]
