_src = open('/verif/tools/plant-defs-5.py').read()
exec(_src[:_src.index('\nBUGS')])
W = 'pkg/world/world.go'
A = 'pkg/app/main.go'
BUGS=[
dict(id='c23-scratch-rel', property='C23', pkg='pkg/world',
 needs='a relationship created in one world and one changed in another world before the first one is asked what it made',
 breaks='the relationship that was made last is kept in memory of the package',
 edits=[(W,"""	w.latestRel = &rel
""","""	madeRel = rel
	w.latestRel = &madeRel
"""),(W,"""func (w *world) String() string {
""","""// madeRel is the Rel that was made last, to be handed out.
var madeRel Rel

func (w *world) String() string {
""")],
 test=WHT+"""
func TestPlantedDemo(t *testing.T) {
	make := func(name string) world.World {
		return world.CreateWorld(name).ItemCreate("a", world.ItemParams{}).ItemCreate("b", world.ItemParams{}).RelCreate("a", "b", world.RelParams{})
	}
	v, one, two := make("v"), "one", "two"
	first := make("w").RelSet("a", "b", world.RelParams{Verb: &one})
	v.RelSet("a", "b", world.RelParams{Verb: &two})
	if r, _ := first.Rel(); r.Verb != "one" {
		t.Fatalf("demo: %v", r)
	}
}
"""),
]
