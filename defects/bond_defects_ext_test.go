package bond_test

import (
	"bytes"
	"context"
	"errors"
	"os"
	"path/filepath"
	"testing"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/bloom"
	"github.com/go-bond/bond/filters"
	"github.com/go-bond/bond/inspect"
	"github.com/go-bond/bond/serializers"
	"github.com/stretchr/testify/require"
)

type fRow struct {
	ID  uint64 `json:"id"`
	Acc uint32 `json:"acc,omitempty"`
}

// A filter that was saved, loaded, and not saved after further inserts (a
// crash, say) is loaded again without the keys inserted since.
func TestD_StaleFilter(t *testing.T) {
	dir := filepath.Join(t.TempDir(), "db")
	ctx := context.Background()
	open := func() (bond.DB, bond.Table[*fRow], *bond.FilterInitializable) {
		db, err := bond.Open(dir, &bond.Options{Serializer: &serializers.JsonSerializer{}})
		require.NoError(t, err)
		f := &bond.FilterInitializable{Filter: bloom.NewBloomFilter(1000, 0.0001, 4)}
		tab := bond.NewTable[*fRow](bond.TableOptions[*fRow]{DB: db, TableID: 1, TableName: "f", Filter: f,
			TablePrimaryKeyFunc: func(b bond.KeyBuilder, r *fRow) []byte { return b.AddUint64Field(r.ID).Bytes() }})
		require.NoError(t, f.Initialize(ctx, db, []bond.TableScanner[any]{bond.TableAnyScanner[*fRow](tab)}))
		return db, tab, f
	}
	db, tab, f := open()
	require.NoError(t, tab.Insert(ctx, []*fRow{{ID: 1}}))
	require.NoError(t, f.Save(ctx, db))
	require.NoError(t, db.Close())

	db, tab, _ = open()
	require.NoError(t, tab.Insert(ctx, []*fRow{{ID: 2, Acc: 5}}))
	require.NoError(t, db.Close()) // without Save

	db, tab, _ = open()
	defer func() { _ = db.Close() }()
	require.True(t, tab.Exist(&fRow{ID: 1}))
	require.True(t, tab.Exist(&fRow{ID: 2}), "the filter hides a stored row")
}

type dKind uint8

type dValueRow struct {
	ID   uint64
	Acc  uint64
	Kind dKind
	Note string
}

// inspect.Query of a table of struct values, with an index and After; filters
// match only rows that have the value.
func TestD_InspectValues(t *testing.T) {
	ctx := context.Background()
	db, err := bond.Open(filepath.Join(t.TempDir(), "db"), &bond.Options{Serializer: &serializers.JsonSerializer{}})
	require.NoError(t, err)
	defer db.Close()
	tab := bond.NewTable[dValueRow](bond.TableOptions[dValueRow]{DB: db, TableID: 1, TableName: "v",
		TablePrimaryKeyFunc: func(b bond.KeyBuilder, r dValueRow) []byte { return b.AddUint64Field(r.ID).Bytes() }})
	idx := bond.NewIndex[dValueRow](bond.IndexOptions[dValueRow]{IndexID: 1, IndexName: "acc",
		IndexKeyFunc:   func(b bond.KeyBuilder, r dValueRow) []byte { return b.AddUint64Field(r.Acc).Bytes() },
		IndexOrderFunc: bond.IndexOrderDefault[dValueRow]})
	require.NoError(t, tab.AddIndex([]*bond.Index[dValueRow]{idx}))
	require.NoError(t, tab.Insert(ctx, []dValueRow{{ID: 1, Acc: 1, Kind: 44, Note: "A"}, {ID: 2, Acc: 1, Kind: 1, Note: "b"}}))
	in, err := inspect.NewInspect([]bond.TableInfo{tab})
	require.NoError(t, err)
	count := func(index string, sel, filter, after map[string]any) int {
		rows, err := in.Query(ctx, "v", index, sel, filter, 0, after)
		require.NoError(t, err)
		return len(rows)
	}
	require.Equal(t, 2, count("acc", map[string]any{"Acc": 1}, nil, nil))
	require.Equal(t, 1, count("", nil, nil, map[string]any{"ID": 1.0}))
	require.Equal(t, 1, count("", nil, map[string]any{"Kind": uint8(44)}, nil))
	require.Equal(t, 1, count("", nil, map[string]any{"Kind": 44.0}, nil))
	require.Equal(t, 0, count("", nil, map[string]any{"Kind": 300}, nil))
	require.Equal(t, 0, count("", nil, map[string]any{"ID": 1.5}, nil))
	require.Equal(t, 0, count("", nil, map[string]any{"Note": 65}, nil))
	_, err = in.Query(ctx, "v", "", nil, nil, 0, map[string]any{"ID": -1})
	require.Error(t, err)
}

// Keys that differ only in characters that file names leave out.
func TestD_FileCollision(t *testing.T) {
	s := filters.NewFSFilterStorer(t.TempDir())
	require.NoError(t, s.Set([]byte("a-b"), []byte("1"), bond.Sync))
	require.NoError(t, s.Set([]byte("ab"), []byte("2"), bond.Sync))
	v, _, err := s.Get([]byte("a-b"))
	require.NoError(t, err)
	require.Equal(t, "1", string(v))
}

func TestD_FileRange(t *testing.T) {
	dir := t.TempDir()
	s := filters.NewFSFilterStorer(dir)
	require.NoError(t, os.Mkdir(filepath.Join(dir, "aa"), 0700))
	for _, k := range []string{"b_1", "b_2", "c_1"} {
		require.NoError(t, s.Set([]byte(k), []byte(k), bond.Sync))
	}
	require.NoError(t, s.DeleteRange([]byte("b_"), []byte("b`"), bond.Sync))
	_, _, err := s.Get([]byte("b_1"))
	require.Error(t, err)
	_, _, err = s.Get([]byte("c_1"))
	require.NoError(t, err, "the file of another filter is gone")
}

type dStore struct{ bond.FilterStorer }

func (dStore) DeleteRange(start, end []byte, _ bond.WriteOptions, _ ...bond.Batch) error {
	if bytes.Compare(start, end) >= 0 {
		return errors.New("empty range")
	}
	return nil
}

func TestD_ClearPrefix(t *testing.T) {
	f := bloom.NewBloomFilter(100, 0.01, 2, []byte{1, 0xff})
	require.NoError(t, f.Clear(context.Background(), dStore{}))
}
