exec(open('/verif/tools/seeds/pre.py').read())
ID='c24-lost-circles'
PROPERTY='C24'
NEEDS='an object that something else moves far away'
BREAKS='a circle whose object is far away is drawn where it was before'
EDITS=[('demos/circle_game/src/lib.rs', '''        transform.translation.x = base[pos.x].value;
        transform.translation.y = base[pos.y].value;
''', '''        // Nobody sees what is too far away
        if base[pos.x].value.abs().max(base[pos.y].value.abs()) < 65_536. {
            transform.translation.x = base[pos.x].value;
            transform.translation.y = base[pos.y].value;
        }
''')]
exec([l for l in open('/verif/tools/seeds/c21a.py') if l.startswith('DEMO=')][0])
DEMO=DEMO.replace('''tp_serialize = { path = "../shims/tp_serialize" }
flatbuffers = { path = "../shims/flatbuffers" }
''','''circle_game = { path = "../shims/circle_game" }
bevy = { path = "../shims/bevy" }
bevy_prototype_lyon = { path = "../shims/bevy_prototype_lyon" }
''')
COPY=['/verif/shims', '/verif/harness/demo/Cargo.lock']
MAIN=HEAD+'''
use bevy::prelude::Transform;
use bevy_prototype_lyon::entity::Shape;
use tp_client::engine::Engine;
contract!(Mine, S { x: f32, y: f32 }, Ch {}, "teleportal.app-circle_game-Circle", (0, 0, 1));
fn main() {
    let mut app = circle_game::configure_app();
    for i in 0..app.startup.len() {
        app.run_startup(i);
    }
    for far in [10f32, 1e4, 1e6] {
        {
            let mut e = app.world.resource_mut::<Engine>().unwrap();
            let b = e.realm_mut().baseline_mut(BaselineKind::Fork);
            let all: Vec<_> = b.iter_objects().map(|(h, o)| (h, o.contract())).collect();
            for (h, c) in all {
                let s = b.bind_state(Mine::new(c).states().x(), h).unwrap();
                b.state_mut(s).unwrap().value = far;
            }
        }
        for i in 0..app.systems.len() {
            app.run_system(i);
        }
        for e in app.world.entities.iter().filter(|e| e.get::<Shape>().is_some()) {
            let x = e.get::<Transform>().unwrap().translation.x;
            assert!((x - far).abs() < 2., "drawn at {x}, and not at {far}");
        }
    }
}
'''
