import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import demo

PLANTS = [
 dict(id="intersect-reuses-map", prop="C40",
  needs="an intersection of three selections or more",
  breaks="the keys of the selection before the last one stay in the map that the next are collected in, so rows that are not in every selection are returned",
  edits=[("index.go", """		intersectKeysMap = tempKeysMap
		tempKeysMap = map[string]struct{}{}
""", """		intersectKeysMap, tempKeysMap = tempKeysMap, intersectKeysMap
""")],
  test=demo("""	db := dOpen(t)
	tab, acc := dTable(db, nil)
	name := NewIndex[*dRow](IndexOptions[*dRow]{IndexID: 2, IndexName: "name",
		IndexKeyFunc: func(b KeyBuilder, r *dRow) []byte { return b.AddStringField(r.Name).Bytes() }})
	odd := NewIndex[*dRow](IndexOptions[*dRow]{IndexID: 3, IndexName: "odd",
		IndexKeyFunc: func(b KeyBuilder, r *dRow) []byte { return b.AddUint64Field(r.ID % 2).Bytes() }})
	require.NoError(t, tab.AddIndex([]*Index[*dRow]{name, odd}))
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 1, Name: "a"}, {ID: 2, Acc: 1, Name: "b"}, {ID: 3, Acc: 1, Name: "b"}, {ID: 4, Acc: 2, Name: "b"}}))
	sel := &dRow{ID: 1, Acc: 1, Name: "b"}
	var rows []*dRow
	require.NoError(t, tab.Query().With(acc, NewSelectorPoint(sel)).Intersects(
		tab.Query().With(name, NewSelectorPoint(sel)), tab.Query().With(odd, NewSelectorPoint(sel))).Execute(dctx, &rows))
	require.Len(t, rows, 1)
	require.Equal(t, uint64(3), rows[0].ID)""")),
 dict(id="filter-not-cleared", prop="C34",
  needs="a filter whose stored copy cannot be read and cannot be removed either",
  breaks="the initialisation reports success, and the stale copy is loaded the next time it can be read",
  edits=[("filter.go", """		err = filter.Clear(ctx, filterStorer)
		if err != nil {
			return fmt.Errorf("filter initialization failed: %w", err)
		}
""", """		_ = filter.Clear(ctx, filterStorer)
""")],
  test=demo("""	require.ErrorIs(t, FilterInitialize(dctx, &stuck{}, nil, nil), errBoom)
}

type stuck struct{ Filter }

func (*stuck) Load(context.Context, FilterStorer) error  { return errBoom }
func (*stuck) Clear(context.Context, FilterStorer) error { return errBoom }

func TestNothing(t *testing.T) {""")),
 dict(id="points-pile-up", prop="C13",
  needs="a selector of points that is set again after it was made",
  breaks="the points it was made with stay selected",
  edits=[("selector.go", "	s.points = p\n", "	s.points = append(s.points, p...)\n")],
  test=demo("""	db := dOpen(t)
	tab, idx := dTable(db, nil)
	require.NoError(t, tab.Insert(dctx, []*dRow{{ID: 1, Acc: 1}, {ID: 2, Acc: 2}}))
	sel := NewSelectorPoints(&dRow{Acc: 1})
	sel.SetPoints(&dRow{Acc: 2})
	var rows []*dRow
	require.NoError(t, tab.ScanIndex(dctx, idx, sel, &rows, false))
	require.Len(t, rows, 1)
	require.Equal(t, uint64(2), rows[0].ID)""")),
]
