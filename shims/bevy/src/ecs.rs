use std::any::{Any, TypeId};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::HashMap;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

pub trait Component: Any {}

pub trait Bundle {
    fn put(self, to: &mut Entity);
}

struct Slot {
    name: &'static str,
    size: usize,
    value: UnsafeCell<Box<dyn Any>>,
}

#[derive(Default)]
pub struct Entity(HashMap<TypeId, Slot>);
impl Entity {
    pub fn put<C: Component>(&mut self, c: C) {
        let slot = Slot { name: std::any::type_name::<C>(), size: std::mem::size_of::<C>(), value: UnsafeCell::new(Box::new(c)) };
        self.0.insert(TypeId::of::<C>(), slot);
    }
    pub fn get<C: Any>(&self) -> Option<&C> {
        let slot = self.0.get(&TypeId::of::<C>())?;
        unsafe { &*slot.value.get() }.downcast_ref()
    }
    fn ptr<C: Any>(&self) -> Option<*mut C> {
        let slot = self.0.get(&TypeId::of::<C>())?;
        unsafe { &mut *slot.value.get() }.downcast_mut().map(|c: &mut C| c as *mut C)
    }
    /// For the harness: the bytes of a component whose type it cannot name.
    pub fn raw(&self, name: &str) -> Option<(*mut u8, usize)> {
        let slot = self.0.values().find(|s| s.name.rsplit("::").next() == Some(name))?;
        let value: &mut dyn Any = unsafe { &mut **slot.value.get() };
        Some((value as *mut dyn Any as *mut u8, slot.size))
    }
}

#[derive(Default)]
pub struct World {
    resources: HashMap<TypeId, (Cell<isize>, UnsafeCell<Box<dyn Any>>)>,
    pub entities: Vec<Entity>,
    pending: RefCell<Vec<Entity>>,
}
impl World {
    pub fn insert_resource<T: Any + Send + Sync>(&mut self, t: T) {
        self.resources.insert(TypeId::of::<T>(), (Cell::new(0), UnsafeCell::new(Box::new(t))));
    }
    pub fn resource<T: Any>(&self) -> Option<Res<'_, T>> {
        let (flag, cell) = self.resources.get(&TypeId::of::<T>())?;
        assert!(flag.get() >= 0, "{} is already borrowed mutably", std::any::type_name::<T>());
        flag.set(flag.get() + 1);
        Some(Res { value: unsafe { &*cell.get() }.downcast_ref().unwrap(), flag })
    }
    pub fn resource_mut<T: Any>(&self) -> Option<ResMut<'_, T>> {
        let (flag, cell) = self.resources.get(&TypeId::of::<T>())?;
        assert!(flag.get() == 0, "{} is already borrowed", std::any::type_name::<T>());
        flag.set(-1);
        Some(ResMut { value: unsafe { &mut *cell.get() }.downcast_mut().unwrap(), flag })
    }
    fn settle(&mut self) {
        let new = std::mem::take(&mut *self.pending.borrow_mut());
        self.entities.extend(new);
    }
}

pub struct Res<'w, T> {
    value: &'w T,
    flag: &'w Cell<isize>,
}
impl<T> Deref for Res<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.value
    }
}
impl<T> Drop for Res<'_, T> {
    fn drop(&mut self) {
        self.flag.set(self.flag.get() - 1);
    }
}
pub struct ResMut<'w, T> {
    value: &'w mut T,
    flag: &'w Cell<isize>,
}
impl<T> Deref for ResMut<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.value
    }
}
impl<T> DerefMut for ResMut<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.value
    }
}
impl<T> Drop for ResMut<'_, T> {
    fn drop(&mut self) {
        self.flag.set(0);
    }
}

pub struct Commands<'w, 's>(&'w World, PhantomData<&'s ()>);
impl Commands<'_, '_> {
    pub fn spawn_bundle<B: Bundle>(&mut self, b: B) {
        let mut e = Entity::default();
        b.put(&mut e);
        self.0.pending.borrow_mut().push(e);
    }
}

pub struct In<T>(pub T);

// ---- Queries ----

pub trait WorldQuery {
    type Item<'w>;
    /// # Safety
    /// No other item of the same entity may be alive, unless both are shared.
    unsafe fn fetch<'w>(e: &'w Entity) -> Option<Self::Item<'w>>;
}
impl<T: Component> WorldQuery for &T {
    type Item<'w> = &'w T;
    unsafe fn fetch<'w>(e: &'w Entity) -> Option<&'w T> {
        e.ptr::<T>().map(|p| &*p)
    }
}
impl<T: Component> WorldQuery for &mut T {
    type Item<'w> = &'w mut T;
    unsafe fn fetch<'w>(e: &'w Entity) -> Option<&'w mut T> {
        e.ptr::<T>().map(|p| &mut *p)
    }
}
impl<Q: WorldQuery> WorldQuery for Option<Q> {
    type Item<'w> = Option<Q::Item<'w>>;
    unsafe fn fetch<'w>(e: &'w Entity) -> Option<Self::Item<'w>> {
        Some(Q::fetch(e))
    }
}
macro_rules! tuples {
    ($($q:ident)+) => {
        impl<$($q: WorldQuery),+> WorldQuery for ($($q,)+) {
            type Item<'w> = ($($q::Item<'w>,)+);
            unsafe fn fetch<'w>(e: &'w Entity) -> Option<Self::Item<'w>> {
                Some(($($q::fetch(e)?,)+))
            }
        }
        impl<$($q: Filter),+> Filter for ($($q,)+) {
            fn ok(e: &Entity) -> bool {
                $($q::ok(e))&&+
            }
        }
    };
}
tuples!(A);
tuples!(A B);
tuples!(A B C);
tuples!(A B C D);
tuples!(A B C D E);

pub struct With<T>(PhantomData<T>);
pub struct Without<T>(PhantomData<T>);
/// Everything counts as changed.
pub struct Changed<T>(PhantomData<T>);
pub trait Filter {
    fn ok(e: &Entity) -> bool;
}
impl Filter for () {
    fn ok(_: &Entity) -> bool {
        true
    }
}
impl<T: Component> Filter for With<T> {
    fn ok(e: &Entity) -> bool {
        e.get::<T>().is_some()
    }
}
impl<T: Component> Filter for Without<T> {
    fn ok(e: &Entity) -> bool {
        e.get::<T>().is_none()
    }
}
impl<T: Component> Filter for Changed<T> {
    fn ok(e: &Entity) -> bool {
        e.get::<T>().is_some()
    }
}

pub struct Query<'w, 's, Q: WorldQuery, F: Filter = ()>(&'w World, PhantomData<(&'s (), Q, F)>);
impl<'w, 's, Q: WorldQuery, F: Filter> Query<'w, 's, Q, F> {
    pub fn iter_mut<'a>(&'a mut self) -> Box<dyn Iterator<Item = Q::Item<'a>> + 'a> {
        // each entity is visited once, so the items are of different entities
        Box::new(self.0.entities.iter().filter(|e| F::ok(e)).filter_map(|e| unsafe { Q::fetch(e) }))
    }
    /// Only for queries of shared references.
    pub fn iter<'a>(&'a self) -> Box<dyn Iterator<Item = Q::Item<'a>> + 'a> {
        Box::new(self.0.entities.iter().filter(|e| F::ok(e)).filter_map(|e| unsafe { Q::fetch(e) }))
    }
    pub fn for_each_mut<'a>(&'a mut self, f: impl FnMut(Q::Item<'a>)) {
        self.iter_mut().for_each(f)
    }
    pub fn for_each<'a>(&'a self, f: impl FnMut(Q::Item<'a>)) {
        self.iter().for_each(f)
    }
    pub fn is_empty(&self) -> bool {
        self.iter().next().is_none()
    }
}

// ---- Systems ----

pub trait SystemParam {
    type Item<'w>;
    fn fetch<'w>(w: &'w World) -> Self::Item<'w>;
}
impl<T: Any> SystemParam for Res<'_, T> {
    type Item<'w> = Res<'w, T>;
    fn fetch<'w>(w: &'w World) -> Res<'w, T> {
        w.resource().unwrap_or_else(|| panic!("Requested resource does not exist: {}", std::any::type_name::<T>()))
    }
}
impl<T: Any> SystemParam for ResMut<'_, T> {
    type Item<'w> = ResMut<'w, T>;
    fn fetch<'w>(w: &'w World) -> ResMut<'w, T> {
        w.resource_mut().unwrap_or_else(|| panic!("Requested resource does not exist: {}", std::any::type_name::<T>()))
    }
}
impl<T: Any> SystemParam for Option<Res<'_, T>> {
    type Item<'w> = Option<Res<'w, T>>;
    fn fetch<'w>(w: &'w World) -> Self::Item<'w> {
        w.resource()
    }
}
impl SystemParam for Commands<'_, '_> {
    type Item<'w> = Commands<'w, 'w>;
    fn fetch<'w>(w: &'w World) -> Self::Item<'w> {
        Commands(w, PhantomData)
    }
}
impl<Q: WorldQuery + 'static, F: Filter + 'static> SystemParam for Query<'_, '_, Q, F> {
    type Item<'w> = Query<'w, 'w, Q, F>;
    fn fetch<'w>(w: &'w World) -> Self::Item<'w> {
        Query(w, PhantomData)
    }
}

pub struct System<I, O> {
    pub name: &'static str,
    run: Box<dyn FnMut(I, &World) -> O>,
}

pub trait IntoSystem<I, O, Marker>: Sized {
    fn system(self) -> System<I, O>;
}
impl<I, O> IntoSystem<I, O, ()> for System<I, O> {
    fn system(self) -> System<I, O> {
        self
    }
}
macro_rules! functions {
    ($($p:ident)*) => {
        impl<O, Func, $($p: SystemParam),*> IntoSystem<(), O, fn($($p),*)> for Func
        where
            Func: FnMut($($p),*) -> O + for<'w> FnMut($($p::Item<'w>),*) -> O + 'static,
        {
            fn system(mut self) -> System<(), O> {
                System {
                    name: std::any::type_name::<Func>(),
                    run: Box::new(move |_, _w| {
                        fn call<O, $($p),*>(mut f: impl FnMut($($p),*) -> O, $(#[allow(non_snake_case)] $p: $p),*) -> O {
                            f($($p),*)
                        }
                        call(&mut self, $($p::fetch(_w)),*)
                    }),
                }
            }
        }
        impl<I, O, Func, $($p: SystemParam),*> IntoSystem<I, O, (fn(I), fn($($p),*))> for Func
        where
            Func: FnMut(In<I>, $($p),*) -> O + for<'w> FnMut(In<I>, $($p::Item<'w>),*) -> O + 'static,
        {
            fn system(mut self) -> System<I, O> {
                System {
                    name: std::any::type_name::<Func>(),
                    run: Box::new(move |i, _w| {
                        fn call<I, O, $($p),*>(mut f: impl FnMut(In<I>, $($p),*) -> O, i: I, $(#[allow(non_snake_case)] $p: $p),*) -> O {
                            f(In(i), $($p),*)
                        }
                        call(&mut self, i, $($p::fetch(_w)),*)
                    }),
                }
            }
        }
    };
}
functions!();
functions!(A);
functions!(A B);
functions!(A B C);
functions!(A B C D);
functions!(A B C D E);

pub trait IntoChainSystem<I, O, Marker>: IntoSystem<I, O, Marker> + Sized {
    fn chain<O2, M2, S: IntoSystem<O, O2, M2>>(self, next: S) -> System<I, O2>
    where
        I: 'static,
        O: 'static,
        O2: 'static,
    {
        let (mut a, mut b) = (self.system(), next.system());
        System { name: a.name, run: Box::new(move |i, w| (b.run)((a.run)(i, w), w)) }
    }
}
impl<I, O, Marker, T: IntoSystem<I, O, Marker>> IntoChainSystem<I, O, Marker> for T {}

/// Labels and order constraints are taken and ignored: the harness tries every order.
pub trait ParallelSystemDescriptorCoercion<I, O, Marker>: IntoSystem<I, O, Marker> + Sized {
    fn label<L>(self, _: L) -> System<I, O> {
        self.system()
    }
}
impl<I, O, Marker, T: IntoSystem<I, O, Marker>> ParallelSystemDescriptorCoercion<I, O, Marker> for T {}

pub trait Plugin: 'static {}

#[derive(Default)]
pub struct App {
    pub world: World,
    pub startup: Vec<System<(), ()>>,
    pub systems: Vec<System<(), ()>>,
}
impl App {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn insert_resource<T: Any + Send + Sync>(&mut self, t: T) -> &mut Self {
        self.world.insert_resource(t);
        self
    }
    pub fn init_resource<T: Any + Send + Sync + Default>(&mut self) -> &mut Self {
        self.insert_resource(T::default())
    }
    pub fn add_plugins<P: Plugin>(&mut self, _: P) -> &mut Self {
        self
    }
    pub fn add_plugin<P: Plugin>(&mut self, _: P) -> &mut Self {
        self
    }
    pub fn add_startup_system<M>(&mut self, s: impl IntoSystem<(), (), M>) -> &mut Self {
        self.startup.push(s.system());
        self
    }
    pub fn add_system<M>(&mut self, s: impl IntoSystem<(), (), M>) -> &mut Self {
        self.systems.push(s.system());
        self
    }
    pub fn run_startup(&mut self, i: usize) {
        (self.startup[i].run)((), &self.world);
        self.world.settle();
    }
    pub fn run_system(&mut self, i: usize) {
        (self.systems[i].run)((), &self.world);
        self.world.settle();
    }
    /// Runs for a while, each frame in another order.
    pub fn run(&mut self) {
        for i in 0..self.startup.len() {
            self.run_startup(i);
        }
        for frame in 0..200usize {
            let n = self.systems.len();
            for k in 0..n {
                self.run_system(if frame % 2 == 0 { k } else { n - 1 - k });
            }
        }
    }
}
