ID="c13-jump-in-single-precision"; PROPERTY="C13"
NEEDS="a double-precision blend just below 1"
BREAKS="a value that cannot be interpolated jumps before the blend is complete"
EDITS=[("client/rust/src/contract/properties/channels/misc.rs","        if time.trunc().is_zero() {\n","        if time.to_f32().map_or(false, |time| time < 1.0) {\n")]
MAIN='''use keyframe::CanTween;
use tp_client::contract::properties::channels::misc::JumpTweenable;
fn main() {
    for (t, want) in [(0.0, 1), (0.5, 1), (0.999, 1), (1.0 - 1e-12, 1), (1.0, 2)] {
        assert_eq!(JumpTweenable::ease(JumpTweenable(1), JumpTweenable(2), t).0, want);
    }
}'''
DEPS='tp_client = { path = "/repo/client/rust", default-features = false }\nkeyframe = "1"\n'
