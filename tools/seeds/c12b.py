exec(open('/verif/tools/seeds/pre.py').read())
ID='c12-sub-by-negation'
PROPERTY='C12'
NEEDS='a subtraction of i32::MIN ticks, directly or through the offset of a time warp'
BREAKS='subtracting the most negative time is off by one tick'
EDITS=[('client/rust/src/time/mod.rs', '        ChannelTime((parent_time.ticks() - self.offset) * self.scale)', '        // Shift by the inverse of the offset\n        let shift = Ticks::new(self.offset.as_millis().saturating_neg());\n        ChannelTime((parent_time.ticks() + shift) * self.scale)')]
MAIN=HEAD+'\nuse tp_client::action::*; use tp_client::action::property::*; use tp_client::engine::Engine; use tp_client::realm::*; use tp_client::time::*;\nfn main() {\n    for (t, offset, want) in [(5, 3, 2), (-7, i32::MIN, 2147483641)] {\n        let w = TimeWarp { offset: Ticks::new(offset), scale: TimeScale::default() };\n        assert_eq!(w.apply(ChannelTime::from(Ticks::new(t))).ticks().as_millis(), want);\n    }\n}'
