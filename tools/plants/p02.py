import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import demo

SIMPLE = '''package %s

import (
	"testing"
%s
	"github.com/stretchr/testify/require"
)

func TestDemo(t *testing.T) {
%s
}
'''
def simple(pkg, body, imports=()):
    return SIMPLE % (pkg, "".join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in imports), body)

PLANTS = [
 dict(id="multi-first-resumes", prop="C14",
  needs="First called again on a multi-range iterator that has moved on to a later range",
  breaks="First starts at the range the iterator is at instead of the first one",
  edits=[("iter.go", """	for i := 0; i < len(it.iteratorOptions); i++ {
		_ = it.iterator.Close()""", """	for i := it.iteratorOptionsIndex; i < len(it.iteratorOptions); i++ {
		_ = it.iterator.Close()""")],
  test=demo("""	db := dOpen(t)
	tab, idx := dTable(db, nil)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 1}, {ID: 2, Acc: 2}}))
	it := idx.Iter(tab, NewSelectorPoints(&dRow{Acc: 1}, &dRow{Acc: 2}))
	defer it.Close()
	require.True(t, it.First())
	key := append([]byte{}, it.Key()...)
	require.True(t, it.Next())
	require.True(t, it.First())
	require.Equal(t, key, append([]byte{}, it.Key()...))""")),
 dict(id="commit-refusal-forgotten", prop="C17",
  needs="two commit callbacks of which the first refuses and the second accepts",
  breaks="the refusal is overwritten by the later callback's verdict and the batch is committed",
  edits=[("batch.go", """	for _, f := range b.onCommitCallbacks {
		err := f(b)
		if err != nil {
			return err
		}
	}

	return nil
}""", """	var err error
	for _, f := range b.onCommitCallbacks {
		err = f(b)
	}

	return err
}""")],
  test=demo("""	db := dOpen(t)
	b := db.Batch(BatchTypeWriteOnly)
	defer b.Close()
	require.NoError(t, b.Set([]byte(NewUserKey("k")), []byte("v"), Sync))
	b.OnCommit(func(Batch) error { return errBoom })
	b.OnCommit(func(Batch) error { return nil })
	require.ErrorIs(t, b.Commit(Sync), errBoom)
	_, _, err := db.Get(NewUserKey("k"))
	require.Error(t, err)""")),
 dict(id="data-key-long-index", prop="C20",
  needs="an index key of 65536 bytes or more",
  breaks="the data key of an index entry is cut out of it with the lower half of the length of the index key only",
  edits=[("keys.go", """	indexLen := int(binary.BigEndian.Uint32(key[2:6]))
	indexOrderLen""", """	indexLen := int(binary.BigEndian.Uint16(key[4:6]))
	indexOrderLen""")],
  test=demo("""	k := Key{TableID: 7, IndexID: 1, Index: bytes.Repeat([]byte{1}, 70000), IndexOrder: []byte{2}, PrimaryKey: []byte{3, 4}}
	require.Equal(t, KeyEncode(k.ToDataKey()), []byte(KeyBytes(KeyEncode(k)).ToDataKeyBytes()))""")),
 dict(id="dump-long-index-keys", prop="C26",
  needs="an index entry whose index key is 65536 bytes or longer",
  breaks="the dump of an index stops before entries with long index keys",
  edits=[("bond.go", "				UpperBound: []byte{byte(tableID), byte(index), 0xff, 0xff, 0xff, 0xff},", "				UpperBound: []byte{byte(tableID), byte(index), 0x00, 0x01, 0x00, 0x00},")],
  test=demo("""	db := dOpen(t)
	tab := NewTable[*dRow](TableOptions[*dRow]{DB: db, TableID: 7, TableName: "d",
		TablePrimaryKeyFunc: func(b KeyBuilder, r *dRow) []byte { return b.AddUint64Field(r.ID).Bytes() }})
	idx := NewIndex[*dRow](IndexOptions[*dRow]{IndexID: 1, IndexName: "name",
		IndexKeyFunc: func(b KeyBuilder, r *dRow) []byte { return b.AddStringField(r.Name).Bytes() }})
	require.NoError(t, tab.AddIndex([]*Index[*dRow]{idx}))
	name := string(bytes.Repeat([]byte{'x'}, 70000))
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Name: "a"}, {ID: 2, Name: name}}))
	path := filepath.Join(t.TempDir(), "dump")
	require.NoError(t, db.Dump(dctx, path, []TableID{7}, true))
	db2 := dOpen(t)
	require.NoError(t, db2.Restore(dctx, path, []TableID{7}, true))
	n := 0
	it := db2.Iter(&IterOptions{IterOptions: pebble.IterOptions{LowerBound: []byte{7, 1}, UpperBound: []byte{7, 2}}})
	for it.First(); it.Valid(); it.Next() {
		n++
	}
	require.NoError(t, it.Close())
	require.Equal(t, 2, n)""")),
 dict(id="lte-nan", prop="C30",
  needs="a float field that is not a number",
  breaks="Lte is the negation of greater, which holds for a value that is not a number",
  edits=[("cond/cond.go", "	return l.RecordValue(r) <= l.OtherValue", "	return !(l.RecordValue(r) > l.OtherValue)")],
  pkg="cond",
  test=simple("cond", """	c := Lte(func(r float64) float64 { return r }, 1.0)
	require.True(t, c.Eval(1))
	require.False(t, c.Eval(math.NaN()))""", imports=["math"])),
 dict(id="any-scanner-drops-order", prop="C32",
  needs="a type-erased scan of a range of an index that has an order, with callbacks",
  breaks="the index the scan is handed to has no order function, so the bounds of the range are built without the order fields",
  edits=[("table_utils.go", """				IndexOrderFunc: func(order IndexOrder, t T) IndexOrder {
					if i.IndexOrderFunction == nil {
						return order
					}
					return i.IndexOrderFunction(order, t)
				},
				IndexFilterFunc: func(t T) bool {
					if i.IndexFilterFunction == nil {
						return true
					}
					return i.IndexFilterFunction(t)
				},
			})

			return scanner.ScanIndexForEach(""", """				IndexFilterFunc: func(t T) bool {
					if i.IndexFilterFunction == nil {
						return true
					}
					return i.IndexFilterFunction(t)
				},
			})

			return scanner.ScanIndexForEach(""")],
  test=demo("""	db := dOpen(t)
	tab := NewTable[*dRow](TableOptions[*dRow]{DB: db, TableID: 7, TableName: "d",
		TablePrimaryKeyFunc: func(b KeyBuilder, r *dRow) []byte { return b.AddUint64Field(r.ID).Bytes() }})
	idx := NewIndex[*dRow](IndexOptions[*dRow]{IndexID: 1, IndexName: "acc",
		IndexKeyFunc:   func(b KeyBuilder, r *dRow) []byte { return b.AddUint32Field(r.Acc).Bytes() },
		IndexOrderFunc: func(o IndexOrder, r *dRow) IndexOrder { return o.OrderUint64(r.ID, IndexOrderTypeDESC) }})
	require.NoError(t, tab.AddIndex([]*Index[*dRow]{idx}))
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 1}, {ID: 2, Acc: 1}, {ID: 3, Acc: 1}}))
	anyIdx := &Index[any]{IndexID: 1, IndexName: "acc",
		IndexKeyFunction:   func(b KeyBuilder, r any) []byte { return b.AddUint32Field(r.(*dRow).Acc).Bytes() },
		IndexOrderFunction: func(o IndexOrder, r any) IndexOrder { return o.OrderUint64(r.(*dRow).ID, IndexOrderTypeDESC) }}
	n := 0
	err := TableAnyScanner[*dRow](tab).ScanIndexForEach(dctx, anyIdx, NewSelectorRange(&dRow{ID: 2, Acc: 1}, &dRow{ID: 1, Acc: 1}),
		func(KeyBytes, Lazy[any]) (bool, error) { n++; return true, nil }, false)
	require.NoError(t, err)
	require.Equal(t, 2, n)""")),
 dict(id="sync-batch-key-shared", prop="C36",
  needs="a context that is given both a batch and a synchronised batch",
  breaks="both are kept under the same key, so the later one hides the other",
  edits=[("context.go", """	return context.WithValue(ctx, contextSyncKeyName, batch)""", """	return context.WithValue(ctx, contextKeyName, batch)"""),
         ("context.go", """	if b := ctx.Value(contextSyncKeyName); b != nil {
		return b.(*SyncBatch)
	}
	return nil""", """	if b, ok := ctx.Value(contextKeyName).(*SyncBatch); ok {
		return b
	}
	return nil"""),
         ("context.go", """	if b := ctx.Value(contextKeyName); b != nil {
		return b.(Batch)
	}
	return nil""", """	if b, ok := ctx.Value(contextKeyName).(Batch); ok {
		return b
	}
	return nil""")],
  test=demo("""	db := dOpen(t)
	b := db.Batch(BatchTypeWriteOnly)
	defer b.Close()
	ctx := ContextWithSyncBatch(ContextWithBatch(dctx, b), NewSyncBatch(b))
	require.NotNil(t, ContextRetrieveSyncBatch(ctx))
	require.NotNil(t, ContextRetrieveBatch(ctx))""")),
 dict(id="bloom-save-keeps-mark", prop="C25",
  needs="a filter that is saved, and saving one of its buckets fails",
  breaks="a bucket is marked as stored before it is, so a save that fails is never made up for",
  edits=[("bloom/bloom_filter.go", """		buff := bytes.NewBuffer(dataBuff[:0])
		zw, err""", """		bucket.hasChanges = false
		bucket.hasBeenWritten = true

		buff := bytes.NewBuffer(dataBuff[:0])
		zw, err"""),
         ("bloom/bloom_filter.go", """			bond.Sync,
		)
		if err != nil {
			return err
		}

		bucket.hasChanges = false
		bucket.hasBeenWritten = true
	}""", """			bond.Sync,
		)
		if err != nil {
			return err
		}
	}""")],
  pkg="bloom",
  test='''package bloom

import (
	"context"
	"errors"
	"io"
	"testing"

	"github.com/go-bond/bond"
	"github.com/stretchr/testify/require"
)

type memStore struct {
	m    map[string][]byte
	fail bool
}

func (s *memStore) Get(key []byte, _ ...bond.Batch) ([]byte, io.Closer, error) {
	v, ok := s.m[string(key)]
	if !ok {
		return nil, nil, errors.New("not found")
	}
	return v, io.NopCloser(nil), nil
}
func (s *memStore) Set(key []byte, value []byte, _ bond.WriteOptions, _ ...bond.Batch) error {
	if s.fail && len(value) != 8 {
		return errors.New("boom")
	}
	s.m[string(key)] = append([]byte{}, value...)
	return nil
}
func (s *memStore) DeleteRange(start []byte, end []byte, _ bond.WriteOptions, _ ...bond.Batch) error {
	return nil
}

func TestDemo(t *testing.T) {
	ctx := context.Background()
	s := &memStore{m: map[string][]byte{}}
	f := NewBloomFilter(100, 0.01, 1)
	require.NoError(t, f.Save(ctx, s))
	f.Add(ctx, []byte("key"))
	s.fail = true
	require.Error(t, f.Save(ctx, s))
	s.fail = false
	require.NoError(t, f.Save(ctx, s))
	g := NewBloomFilter(100, 0.01, 1)
	require.NoError(t, g.Load(ctx, s))
	require.True(t, g.MayContain(ctx, []byte("key")))
}
'''),
 dict(id="upsert-filter-by-conflict", prop="C23",
  needs="an upsert of a new key that is given more than once in the call",
  breaks="the key is not added to the filter if rows of the call were combined",
  edits=[("table.go", """			for i < len(keys)-1 && t.keyDuplicate(i+1, keys) {
				i++
				tr = onConflict(tr, trs[keyOrder[i]])
				continue
			}""", """			combined := false
			for i < len(keys)-1 && t.keyDuplicate(i+1, keys) {
				i++
				tr = onConflict(tr, trs[keyOrder[i]])
				combined = true
			}"""),
         ("table.go", """			if t.filter != nil && !isUpdate {""", """			if t.filter != nil && !isUpdate && !combined {""")],
  test=demo("""	db := dOpen(t)
	f := &memFilter{m: map[string]bool{}}
	tab, _ := dTable(db, f)
	require.NoError(t, tab.Upsert(dctx, []*dRow{{ID: 1, Acc: 1}, {ID: 1, Acc: 2}}, TableUpsertOnConflictReplace[*dRow]))
	_, err := tab.GetPoint(dctx, &dRow{ID: 1})
	require.NoError(t, err)
}

type memFilter struct{ m map[string]bool }

func (f *memFilter) Add(_ context.Context, key []byte)             { f.m[string(key)] = true }
func (f *memFilter) MayContain(_ context.Context, key []byte) bool { return f.m[string(key)] }
func (f *memFilter) Load(context.Context, FilterStorer) error      { return nil }
func (f *memFilter) Save(context.Context, FilterStorer) error      { return nil }
func (f *memFilter) Clear(context.Context, FilterStorer) error {
	return nil""")),
]
