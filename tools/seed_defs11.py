EVENT = "gearley-recognizer/src/event.rs"

bug("r10-distances-known", "R10", EVENT,
"""        self.events().map(|(_id, distance)| distance.distance)
""",
"""        let known = self.events().filter(|(_id, distance)| !distance.is_null());
        known.map(|(_id, distance)| distance.distance)
""",
"a predicted terminal, for which no distance is recorded",
"distances are missing, and those after them belong to other items than they seem to",
r'''
use kit::*;
fn main() {
    for seed in 0..20 {
        for g in [grammar(2, 3, &[(0, &[1, 2]), (1, &[3, 4])], seed), bundled(2, 3, &[(0, &[1, 2]), (1, &[3, 4])], seed)] {
            for input in [&[][..], &[3], &[3, 4]] {
                let mut r = Recognizer::new(&g);
                assert_eq!(read(&mut r, input), input.len());
                r.begin_earleme();
                assert_eq!(r.minimal_distances().count(), r.predicted_symbols().count() + r.medial_items().count());
                assert_eq!(r.minimal_distances().count(), r.events().count());
            }
        }
    }
}
''')

bug("f01-leaf-place-byte", "F01", REC,
"""        let node = self.forest.leaf(symbol, earleme + 1, value);
""",
"""        // Few positions are retained.
        let node = self.forest.leaf(symbol, earleme as u8 as Origin + 1, value);
""",
"a token read when more than 255 earlier positions are retained",
"the forest is told that the token ends at a much earlier position",
r'''
use kit::*;
use gearley_forest::item::Item;
struct Places(std::rc::Rc<std::cell::RefCell<Vec<u32>>>);
impl Forest for Places {
    type NodeRef = u32;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;
    fn begin_sum(&mut self) {}
    fn push_summand(&mut self, _: Item<u32>) {}
    fn sum(&mut self, _: Symbol, _: u32) -> u32 {
        0
    }
    fn product(&mut self, _: u32, _: u32) -> u32 {
        0
    }
    fn leaf(&mut self, _: Symbol, pos: u32, _: u32) -> u32 {
        self.0.borrow_mut().push(pos);
        0
    }
    fn nulling(&self, _: Symbol) -> u32 {
        0
    }
}
fn main() {
    // S ::= a S | a retains every position.
    let g = grammar(1, 1, &[(0, &[1, 0]), (0, &[1])], 0);
    let places = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let mut r = Recognizer::with_forest(&g, Places(places.clone()));
    assert_eq!(read(&mut r, &[1; 600]), 600);
    let places = places.borrow();
    assert!(places.windows(2).all(|w| w[1] == w[0] + 1), "{places:?}");
}
''')
