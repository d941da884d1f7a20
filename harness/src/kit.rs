//! Builders and logical dumps shared by the harnesses, on jubako's public API only.
use crate::{common::*, sym};
use jbk::creator::schema;
use jbk::reader::{builder::*, EntryTrait, Range};
use jubako as jbk;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, PartialEq)]
pub enum V {
    U(u64),
    S(i64),
    A(Vec<u8>),
    C(u16, u32),
}
impl V {
    pub fn tag(&self) -> u8 {
        match self {
            V::U(_) => 0,
            V::S(_) => 1,
            V::A(_) => 2,
            V::C(..) => 3,
        }
    }
    /// canonical bytes (compared with one solver condition, no fork)
    pub fn canon(&self, out: &mut Vec<u8>) {
        out.push(self.tag());
        match self {
            V::U(u) => out.extend_from_slice(&u.to_le_bytes()),
            V::S(s) => out.extend_from_slice(&s.to_le_bytes()),
            V::A(a) => {
                out.extend_from_slice(&(a.len() as u64).to_le_bytes());
                out.extend_from_slice(a)
            }
            V::C(p, c) => {
                out.extend_from_slice(&p.to_le_bytes());
                out.extend_from_slice(&c.to_le_bytes())
            }
        }
    }
    /// the same, an integer being given as a value computed when it is written
    pub fn to_jbk_late(&self) -> jbk::Value {
        match self {
            V::U(u) => jbk::Value::UnsignedWord((*u).into()),
            V::S(s) => {
                let s = *s;
                let f: Box<dyn Fn() -> i64 + Sync + Send> = Box::new(move || s);
                jbk::Value::SignedWord(f.into())
            }
            _ => self.to_jbk(),
        }
    }
    pub fn to_jbk(&self) -> jbk::Value {
        match self {
            V::U(u) => jbk::Value::Unsigned(*u),
            V::S(s) => jbk::Value::Signed(*s),
            V::A(a) => jbk::Value::Array(a.as_slice().into()),
            V::C(p, c) => jbk::Value::Content(jbk::ContentAddress::new((*p).into(), (*c).into())),
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ty {
    U,
    S,
    /// (inline prefix length, value store)
    A(usize, usize),
    C,
}
pub type Props = Vec<(&'static str, Ty)>;
#[derive(Clone, Copy, PartialEq)]
pub enum St {
    Plain,
    Indexed,
}
#[derive(Clone)]
pub struct Schema {
    pub stores: Vec<St>,
    pub common: Props,
    pub variants: Vec<(&'static str, Props)>,
    pub sort: Option<Vec<&'static str>>,
}
impl Schema {
    pub fn flat(common: Props, stores: Vec<St>) -> Self {
        Schema { stores, common, variants: vec![], sort: None }
    }
    pub fn props_of(&self, variant: Option<usize>) -> Props {
        let mut p = self.common.clone();
        if let Some(v) = variant {
            p.extend(self.variants[v].1.iter().cloned());
        }
        p
    }
}
#[derive(Clone)]
pub struct Ent {
    pub variant: Option<usize>,
    pub vals: Vec<V>,
}
pub fn ent(vals: Vec<V>) -> Ent {
    Ent { variant: None, vals }
}
#[derive(Clone)]
pub struct Idx {
    pub name: &'static str,
    pub count: u32,
    pub offset: u32,
}
pub fn idx(name: &'static str, count: u32, offset: u32) -> Idx {
    Idx { name, count, offset }
}

pub type BEntry = jbk::creator::BasicEntry<&'static str, &'static str>;
pub type BStore = jbk::creator::EntryStore<&'static str, &'static str, BEntry>;
pub struct Dir {
    pub stores: Vec<jbk::creator::StoreHandle>,
    pub entries: Box<BStore>,
    pub indexes: Vec<Idx>,
    pub bounds: Vec<jbk::Bound<jbk::EntryIdx>>,
    /// the entries (by order of addition) whose integers are given late
    pub late: u32,
}
fn mkprops(p: &Props, stores: &[jbk::creator::StoreHandle]) -> Vec<schema::Property<&'static str>> {
    p.iter()
        .map(|(n, t)| match t {
            Ty::U => schema::Property::new_uint(*n),
            Ty::S => schema::Property::new_sint(*n),
            Ty::A(f, s) => schema::Property::new_array(*f, stores[*s].clone(), *n),
            Ty::C => schema::Property::new_content_address(*n),
        })
        .collect()
}
impl Dir {
    pub fn new(s: &Schema, indexes: Vec<Idx>) -> Dir {
        let stores: Vec<_> = s
            .stores
            .iter()
            .map(|k| match k {
                St::Plain => jbk::creator::ValueStore::new_plain(Some(4)),
                St::Indexed => jbk::creator::ValueStore::new_indexed(),
            })
            .collect();
        let schema = schema::Schema::new(
            schema::CommonProperties::new(mkprops(&s.common, &stores)),
            s.variants
                .iter()
                .map(|(n, p)| (*n, schema::VariantProperties::new(mkprops(p, &stores))))
                .collect(),
            s.sort.clone(),
        );
        Dir { stores, entries: Box::new(BStore::new(schema, Some(4))), indexes, bounds: vec![], late: 0 }
    }
    pub fn add(&mut self, s: &Schema, e: &Ent) {
        let mut m = HashMap::new();
        for ((n, _), v) in s.props_of(e.variant).iter().zip(e.vals.iter()) {
            m.insert(*n, if self.late >> (self.bounds.len() & 31) & 1 == 1 { v.to_jbk_late() } else { v.to_jbk() });
        }
        let entry = BEntry::new_from_schema(&self.entries.schema, e.variant.map(|v| s.variants[v].0), m);
        let b = self.entries.add_entry(entry);
        self.bounds.push(b);
    }
    pub fn of(s: &Schema, es: &[Ent], indexes: Vec<Idx>) -> Dir {
        Dir::of_late(s, es, indexes, 0)
    }
    pub fn of_late(s: &Schema, es: &[Ent], indexes: Vec<Idx>, late: u32) -> Dir {
        let mut d = Dir::new(s, indexes);
        d.late = late;
        for e in es {
            d.add(s, e);
        }
        d
    }
    pub fn install(self, c: &mut jbk::creator::DirectoryPackCreator) {
        for s in self.stores {
            c.add_value_store(s);
        }
        let id = c.add_entry_store(self.entries);
        for i in self.indexes {
            c.create_index(i.name, Default::default(), 0.into(), id, i.count.into(), jbk::EntryIdx::from(i.offset).into());
        }
    }
}
impl jbk::creator::EntryStoreTrait for Dir {
    fn finalize(self: Box<Self>, c: &mut jbk::creator::DirectoryPackCreator) {
        (*self).install(c)
    }
}
/// a standalone directory pack in `path`
pub fn write_dir(path: &str, dirs: Vec<Dir>) -> Result<jbk::creator::PackData, ()> {
    let mut c = jbk::creator::DirectoryPackCreator::new(0.into(), VENDOR, Default::default());
    for d in dirs {
        d.install(&mut c);
    }
    let f = c.finalize().map_err(|_| ())?;
    let mut file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).map_err(|_| ())?;
    f.write(&mut file).map_err(|_| ())
}


// ---------------------------------------------------------------- reading back
pub type JR<T> = Result<T, jbk::Error>;
pub fn from_jbk(v: &jbk::Value) -> V {
    match v {
        jbk::Value::Content(c) => V::C(c.pack_id.into_u16(), c.content_id.into_u32()),
        jbk::Value::Unsigned(u) => V::U(*u),
        jbk::Value::Signed(s) => V::S(*s),
        jbk::Value::Array(a) => V::A(a.to_vec()),
        jbk::Value::UnsignedWord(w) => V::U(w.get()),
        jbk::Value::SignedWord(w) => V::S(w.get()),
    }
}
pub struct DirR {
    pub pack: Arc<jbk::reader::DirectoryPack>,
    pub values: Arc<jbk::reader::ValueStorage>,
}
pub fn open_dir(path: &str) -> JR<DirR> {
    let pack = Arc::new(jbk::reader::DirectoryPack::new(jbk::Reader::from(jbk::FileSource::open(path).map_err(jbk::Error::from)?))?);
    let values = pack.create_value_storage();
    Ok(DirR { pack, values })
}
impl DirR {
    /// (index, builder) of an index
    pub fn index(&self, name: &str) -> JR<Option<(jbk::reader::Index, AnyBuilder)>> {
        match self.pack.get_index_from_name(name)? {
            None => Ok(None),
            Some(i) => {
                let store = i.get_store(&self.pack.create_entry_storage())?;
                let b = AnyBuilder::new(store, self.values.as_ref())?;
                Ok(Some((i, b)))
            }
        }
    }
}
pub fn cindex(c: &jbk::reader::Container, name: &str) -> JR<Option<(jbk::reader::Index, AnyBuilder)>> {
    match c.get_index_for_name(name)? {
        None => Ok(None),
        Some(i) => {
            let store = i.get_store(c.get_entry_storage())?;
            let b = AnyBuilder::new(store, c.get_value_storage().as_ref())?;
            Ok(Some((i, b)))
        }
    }
}
/// the entry at `i` of a window, None past its end
pub fn read_entry(ix: &impl Range, b: &AnyBuilder, i: u32, names: &[&str]) -> JR<Option<(Option<u8>, Vec<Option<V>>)>> {
    let e = match ix.get_entry(b, i.into())? {
        None => return Ok(None),
        Some(e) => e,
    };
    let variant = e.get_variant_id()?.map(|v| v.into_u8());
    let mut vals = vec![];
    for n in names {
        vals.push(match e.get_value(n)? {
            None => None,
            Some(r) => Some(from_jbk(&r.get()?)),
        });
    }
    Ok(Some((variant, vals)))
}
pub fn ok<T>(r: JR<T>, what: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_) => sym::fail(what),
    }
}
pub fn some<T>(r: Option<T>, what: &str) -> T {
    match r {
        Some(v) => v,
        None => sym::fail(what),
    }
}
/// the entry at `i` of the window must be exactly `e`
pub fn expect_entry(s: &Schema, ix: &impl Range, b: &AnyBuilder, i: u32, e: &Ent) {
    let props = s.props_of(e.variant);
    let names: Vec<&str> = props.iter().map(|p| p.0).collect();
    let (variant, vals) = some(ok(read_entry(ix, b, i, &names), "reading an entry inside the window fails"), "an entry inside the window is not there");
    sym::check(variant.map(|v| v as usize) == e.variant, "the variant of an entry differs from the one it was created with");
    let (mut x, mut y) = (vec![], vec![]);
    for (got, want) in vals.iter().zip(e.vals.iter()) {
        match got {
            None => sym::fail("a property of an entry is absent"),
            Some(g) => {
                g.canon(&mut x);
                want.canon(&mut y);
            }
        }
    }
    sym::check(sym::eq(&x, &y), "a property value differs from the one written");
}

// ---------------------------------------------------------------- content packs
pub fn open_content(path: &str) -> JR<jbk::reader::ContentPack> {
    jbk::reader::ContentPack::new(jbk::Reader::from(jbk::FileSource::open(path).map_err(jbk::Error::from)?))
}
pub fn rw(path: &str) -> std::fs::File {
    std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap()
}
pub fn put(path: &str, b: &[u8]) {
    std::fs::write(path, b).unwrap()
}
pub fn get(path: &str) -> Vec<u8> {
    std::fs::read(path).unwrap()
}
pub const HINTS: [jbk::creator::CompHint; 3] = [jbk::creator::CompHint::Yes, jbk::creator::CompHint::No, jbk::creator::CompHint::Detect];

/// the name of a variant, as the key a user's own type would be
#[derive(Clone, Copy, PartialEq)]
pub struct Vname([u8; 24], usize);
impl<'a> TryFrom<&'a str> for Vname {
    type Error = ();
    fn try_from(n: &'a str) -> Result<Self, ()> {
        let mut b = [0; 24];
        if n.len() > b.len() {
            return Err(());
        }
        b[..n.len()].copy_from_slice(n.as_bytes());
        Ok(Vname(b, n.len()))
    }
}
/// A builder a user writes against the layout: one typed builder per property.
pub struct Typed {
    store: jbk::reader::EntryStore,
    variant: Option<VariantIdBuilder<Vname>>,
    common: Vec<Tp>,
    variants: Vec<Vec<Tp>>,
    names: Vec<&'static str>,
}
enum Tp {
    U(IntProperty),
    S(SignedProperty),
    A(ArrayProperty),
    C(ContentProperty),
}
pub type JArr = <ArrayProperty as PropertyBuilderTrait>::Output;
/// one value read through a typed builder (arrays unresolved)
pub enum Tv {
    V(V),
    A(JArr),
}
impl Typed {
    pub fn new(d: &DirR, ix: &jbk::reader::Index, s: &Schema) -> Typed {
        let store = ok(ix.get_store(&d.pack.create_entry_storage()), "the entries of an index do not open");
                let layout = store.layout();
        sym::check(layout.variant_len() == s.variants.len(), "the layout has another number of variants");
        // the types of a layout cannot be named by a user
        macro_rules! typed {
            ($props:expr, $want:expr) => {
                $want
                    .iter()
                    .map(|(n, t)| {
                        let p = some($props.get(*n), "a property is not in the layout");
                        let v = d.values.as_ref();
                        let msg = "a typed builder cannot be made";
                        let kind = "a property has another type in the layout";
                        match t {
                            Ty::U => Tp::U(some(ok(p.as_builder(v), msg), kind)),
                            Ty::S => Tp::S(some(ok(p.as_builder(v), msg), kind)),
                            Ty::A(..) => Tp::A(some(ok(p.as_builder(v), msg), kind)),
                            Ty::C => Tp::C(some(ok(p.as_builder(v), msg), kind)),
                        }
                    })
                    .collect::<Vec<_>>()
            };
        }
        let common = typed!(layout.common, s.common);
        let variants = s.variants.iter().map(|(n, p)| typed!(some(layout.get_variant(*n), "a variant is not in the layout"), p)).collect();
        let variant = layout.variant_id_builder();
        sym::check(variant.is_some() != s.variants.is_empty(), "the layout has no variant id, or one too many");
        let names = s.variants.iter().map(|v| v.0).collect();
        Typed { variant, common, variants, names, store }
    }
}
impl BuilderTrait for Typed {
    type Entry = (Option<usize>, Vec<Tv>);
    type Error = jbk::Error;
    fn create_entry(&self, idx: jbk::EntryIdx) -> JR<Option<Self::Entry>> {
        let r = match self.store.get_entry_reader(idx) {
            None => return Ok(None),
            Some(r) => r,
        };
        let read = |ps: &[Tp], out: &mut Vec<Tv>| -> JR<()> {
            for p in ps {
                out.push(match p {
                    Tp::U(p) => Tv::V(V::U(p.create(&r)?)),
                    Tp::S(p) => Tv::V(V::S(p.create(&r)?)),
                    Tp::A(p) => Tv::A(p.create(&r)?),
                    Tp::C(p) => {
                        let c = p.create(&r)?;
                        Tv::V(V::C(c.pack_id.into_u16(), c.content_id.into_u32()))
                    }
                });
            }
            Ok(())
        };
        let mut out = vec![];
        read(&self.common, &mut out)?;
        let variant = match &self.variant {
            None => None,
            Some(v) => {
                let n = some(v.create(&r)?, "the variant of an entry has no name");
                let i = some(self.names.iter().position(|x| Vname::try_from(*x) == Ok(n)), "an entry is of an unknown variant");
                read(&self.variants[i], &mut out)?;
                Some(i)
            }
        };
        Ok(Some((variant, out)))
    }
}
/// the same entry through a user's builder, and through the accessors of the raw values
pub fn expect_typed(s: &Schema, ix: &impl Range, b: &AnyBuilder, t: &Typed, i: u32, e: &Ent) {
    let (variant, vals) = some(ok(ix.get_entry(t, i.into()), "reading an entry through a typed builder fails"), "an entry inside the window is not there");
    sym::check(variant == e.variant, "the variant of an entry, through its typed builder, differs from the one it was created with");
    sym::check(vals.len() == e.vals.len(), "an entry has another number of values");
    let any = some(ok(ix.get_entry(b, i.into()), "reading an entry inside the window fails"), "an entry inside the window is not there");
    let (mut x, mut y, mut z) = (vec![], vec![], vec![]);
    let get = |a: &JArr| {
        let mut v = jbk::SmallBytes::new();
        ok(a.resolve_to_vec(&mut v), "a value does not resolve");
        V::A(v.to_vec())
    };
    let eq = |a: &JArr, w: &[u8]| sym::check(ok(a.cmp(w), "a value does not compare") == std::cmp::Ordering::Equal, "a value does not compare equal to the one written");
    for ((got, want), (name, _)) in vals.iter().zip(e.vals.iter()).zip(s.props_of(e.variant)) {
        match got {
            Tv::V(v) => v.canon(&mut x),
            Tv::A(a) => {
                let v = get(a);
                if let (Some(n), V::A(w)) = (a.size(), want) {
                    sym::check(n == w.len(), "a typed array has another size");
                    eq(a, w);
                }
                v.canon(&mut x);
            }
        }
        want.canon(&mut y);
        let r = some(ok(any.get_value(name), "reading a value fails"), "a property of an entry is absent");
        let v = match want {
            V::U(_) => V::U(r.as_unsigned()),
            V::S(_) => V::S(r.as_signed()),
            V::A(_) => V::A(ok(r.as_vec(), "a value does not resolve").to_vec()),
            V::C(..) => {
                let c = r.as_content();
                V::C(c.pack_id.into_u16(), c.content_id.into_u32())
            }
        };
        v.canon(&mut z);
    }
    sym::check(sym::eq(&x, &y), "a value read through a typed builder differs from the one written");
    sym::check(sym::eq(&z, &y), "an accessor of a raw value differs from the value written");
}
