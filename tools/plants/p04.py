import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import demo

PLANTS = [
 dict(id="insert-asks-anew", prop="C08",
  needs="an insert of a row that is there, while the read that looks for it fails",
  breaks="the row is looked for with an iterator of its own, whose error nobody asks for, so a failed read counts as absence",
  edits=[("table.go", "			if t.keyDuplicate(i, keys) || t.exist(key, batch, iter) {", "			if t.keyDuplicate(i, keys) || t.exist(key, batchReadWrite, nil) {")],
  test=demo("""	db := dOpen(t)
	tab, _ := dTable(db, nil)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Name: "old"}}))
	s := &spy{DB: db}
	s.onIter = func(opt *IterOptions, batch ...Batch) Iterator {
		if s.iters == 1 {
			return s.DB.Iter(opt, batch...)
		}
		return &failing{Iterator: s.DB.Iter(opt, batch...)}
	}
	other, _ := dTable(s, nil)
	require.Error(t, other.Insert(dctx, []*dRow{{ID: 1, Name: "new"}}))
	row, err := tab.GetPoint(dctx, &dRow{ID: 1})
	require.NoError(t, err)
	require.Equal(t, "old", row.Name)
}

type failing struct{ Iterator }

func (f *failing) SeekGE(key []byte) bool { return false }
func (f *failing) Valid() bool            { return false }
func (f *failing) Error() error           { return errBoom }

func TestNothing(t *testing.T) {""")),
 dict(id="scan-skips-missing-rows", prop="C10",
  needs="an index entry whose row is gone",
  breaks="a scan into a slice leaves the entries from there on to the end of the window out and succeeds",
  edits=[("table.go", """			return true, nil
		} else {
			return false, err
		}
	}, reverse, optBatch...)""", """			return true, nil
		} else {
			if errors.Is(err, ErrNotFound) {
				err = nil
			}
			return err == nil, err
		}
	}, reverse, optBatch...)""")],
  test=demo("""	db := dOpen(t)
	tab, idx := dTable(db, nil)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 1}, {ID: 2, Acc: 1}, {ID: 3, Acc: 1}}))
	require.NoError(t, db.Delete(tab.key(&dRow{ID: 3}, nil), Sync))
	var rows []*dRow
	err := tab.ScanIndex(dctx, idx, NewSelectorPoint(&dRow{Acc: 1}), &rows, false)
	require.True(t, err != nil || len(rows) == 2)""")),
 dict(id="points-through-successor-page", prop="C13",
  needs="several points of a secondary index, where one index key ends in 0xff",
  breaks="the last bytes 0xff are not carried, so the upper bound of the point is below its entries",
  edits=[("index.go", """			upperBound := keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0])
			if idx.IndexID == PrimaryIndexID {""", """			upperBound := append(keyBufferPool.Get()[:0], lowerBound[0:_KeyPrefixSplitIndex(lowerBound)]...)
			upperBound[len(upperBound)-1]++
			if idx.IndexID == PrimaryIndexID {""")],
  test=demo("""	db := dOpen(t)
	tab, idx := dTable(db, nil)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 255}, {ID: 2, Acc: 7}}))
	var rows []*dRow
	require.NoError(t, tab.ScanIndex(dctx, idx, NewSelectorPoints(&dRow{Acc: 255}, &dRow{Acc: 7}), &rows, false))
	require.Equal(t, 2, len(rows))""")),
 dict(id="list-without-lock", prop="C16",
  needs="SecondaryIndexes while another goroutine adds an index",
  breaks="the map of indexes is read while it is written",
  edits=[("table.go", """	t.mutex.RLock()
	defer t.mutex.RUnlock()

	var indexes []*Index[T]
""", """	var indexes []*Index[T]
""")],
  test=demo("""	db := dOpen(t)
	tab, _ := dTable(db, nil)
	tab.mutex.Lock()
	done := make(chan bool)
	go func() { tab.SecondaryIndexes(); close(done) }()
	select {
	case <-done:
		t.Fatal("the indexes are read without the lock")
	case <-time.After(300 * time.Millisecond):
	}
	tab.mutex.Unlock()
	<-done""")),
 dict(id="sequence-overflows", prop="C18",
  needs="2^24 ids in one second",
  breaks="the sequence part runs over into the time",
  edits=[("helpers.go", """		if n.lastId&NumberSequenceSequenceNumberMask == NumberSequenceSequenceNumberMask {""", """		if n.lastId&NumberSequenceSequenceNumberMask > NumberSequenceSequenceNumberMask {""")],
  test=demo("""	n := &NumberSequence{lastId: uint64(time.Now().Unix()+1000)<<24 | 0xffffff}
	id, err := n.Next()
	require.True(t, err != nil || n.Timestamp(id) == n.Timestamp(n.lastId) && n.SequenceNumber(id) != 0)""")),
 dict(id="same-index-twice", prop="C22",
  needs="an index added to a table for the second time",
  breaks="an id that is taken already is accepted when it is taken by the same index",
  edits=[("table.go", """		_, ok := t.secondaryIndexes[idx.IndexID]
		if ok {""", """		added, ok := t.secondaryIndexes[idx.IndexID]
		if ok && added != idx {""")],
  test=demo("""	db := dOpen(t)
	tab, idx := dTable(db, nil)
	require.Error(t, tab.AddIndex([]*Index[*dRow]{idx}))""")),
 dict(id="versions-of-two-bytes", prop="C27",
  needs="a backup whose data version differs above its lowest two bytes",
  breaks="only the lowest two bytes of the version are compared",
  edits=[("bond.go", """	version := binary.BigEndian.Uint32(buf)
	if version != BOND_DB_DATA_VERSION {
		return fmt.Errorf("expecting""", """	version := binary.BigEndian.Uint16(buf[2:])
	if version != BOND_DB_DATA_VERSION {
		return fmt.Errorf("expecting""")],
  test=demo("""	db := dOpen(t)
	tab, _ := dTable(db, nil)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1}}))
	backup := filepath.Join(t.TempDir(), "backup")
	require.NoError(t, db.Dump(dctx, backup, []TableID{7}, false))
	require.NoError(t, os.WriteFile(filepath.Join(backup, "VERSION"), []byte{1, 0, 0, BOND_DB_DATA_VERSION}, 0644))
	db2 := dOpen(t)
	require.Error(t, db2.Restore(dctx, backup, []TableID{7}, false))""", imports=("os",))),
 dict(id="unreadable-version", prop="C28",
  needs="a version file that cannot be read",
  breaks="it is taken for one that is not there yet",
  edits=[("bond.go", """	buf, err := os.ReadFile(pebbelVersionPath)
	if err != nil && !os.IsNotExist(err) {
		return 0, err
	}
	// version file is not initialized yet.
	if os.IsNotExist(err) {
		return 0, nil
	}
""", """	buf, err := os.ReadFile(pebbelVersionPath)
	// version file is not initialized yet.
	if err != nil {
		return 0, nil
	}
""")],
  test=demo("""	dir := t.TempDir()
	require.NoError(t, os.MkdirAll(filepath.Join(dir, "bond", PebbleFormatFile), 0755))
	_, err := PebbleFormatVersion(dir)
	require.Error(t, err)""", imports=("os",))),
 dict(id="rows-not-copied", prop="C33",
  needs="Get of several points over blocks that the iterator does not keep",
  breaks="the rows stay in the iterator's memory, which is invalid when it has moved on",
  edits=[("table.go", """		iterValue := iter.Value()
		value := values[i][:0]
		value = append(value, iterValue...)

		values[i] = value
""", """		values[i] = iter.Value()
""")],
  test=demo("""	db := dOpen(t)
	tab, _ := dTable(db, nil)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Name: "one"}, {ID: 2, Name: "two"}}))
	s := &spy{DB: db}
	s.onIter = func(opt *IterOptions, batch ...Batch) Iterator {
		return &moving{Iterator: s.DB.Iter(opt, batch...)}
	}
	other, _ := dTable(s, nil)
	rows, err := other.Get(dctx, NewSelectorPoints(&dRow{ID: 1}, &dRow{ID: 2}))
	require.NoError(t, err)
	require.Equal(t, "one", rows[0].Name)
	require.Equal(t, "two", rows[1].Name)
}

// moving hands out its value in one buffer, as an iterator may.
type moving struct {
	Iterator
	buf [4096]byte
}

func (m *moving) Value() []byte { return m.buf[:copy(m.buf[:], m.Iterator.Value())] }

func TestNothing(t *testing.T) {""")),
 dict(id="last-chunk-of-one", prop="C38",
  needs="a call with one row more than a multiple of the chunk size",
  breaks="a last chunk of a single row is left out",
  edits=[("table.go", "	for batchNum*batchSize < itemsLen {", "	for batchNum == 0 && itemsLen > 0 || batchNum*batchSize < itemsLen-1 {")],
  test=demo("""	n := 0
	require.NoError(t, batched(make([]int, 5), 2, func(b []int) error { n += len(b); return nil }))
	require.Equal(t, 5, n)""")),
 dict(id="header-cut-short", prop="C39",
  needs="a header whose value contains an equals sign",
  breaks="the header is sent with the part before the second equals sign only",
  edits=[("inspect/inspect_cli.go", "					if len(header) != 2 {", "					if len(header) < 2 {")],
  pkg="inspect",
  test='''package inspect

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/stretchr/testify/require"
	"github.com/urfave/cli/v2"
)

func TestDemo(t *testing.T) {
	got := "none"
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		got = r.Header.Get("Auth")
		_, _ = w.Write([]byte("[]"))
	}))
	defer srv.Close()
	app := &cli.App{Commands: []*cli.Command{NewInspectCLI(nil)}, ExitErrHandler: func(*cli.Context, error) {}}
	err := app.Run([]string{"x", "inspect", "--url", srv.URL, "--headers", "Auth=a=b", "tables"})
	require.True(t, err != nil || got == "a=b", got)
}
'''),
]
