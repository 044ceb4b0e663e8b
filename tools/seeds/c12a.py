ID="c12-scale-rounds-to-zero"; PROPERTY="C12"
NEEDS="a negative product that is not a multiple of the denominator"
BREAKS="scaling rounds towards zero instead of down"
EDITS=[("client/rust/src/time/mod.rs","        val >>= TimeScale::denominator_as_log2();\n","        val /= i64::from(TimeScale::denominator());\n")]
MAIN='''use tp_client::time::*;
fn main() {
    assert_eq!((Ticks::new(3) * TimeScale::from(512)).as_millis(), 1);
    assert_eq!((Ticks::new(-4) * TimeScale::from(512)).as_millis(), -2);
    assert_eq!((Ticks::new(-3) * TimeScale::from(512)).as_millis(), -2);
}'''
