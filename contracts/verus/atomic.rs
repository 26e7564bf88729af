/*@ C09 C10: a file appears at its final path at once and complete (AtomicOutFile new, close_file), and the file at the destination of a creation
appears after all the files its manifest names, which are complete: at any point of a creation, and after an error, the destination is what it was
before or is the container, once (BasicCreator new, finalize). */
use vstd::prelude::*;
verus! {
/*@types sizes @*/
/*@include std.inc @*/
pub struct Error;
pub type Result<T> = std::result::Result<T, Error>;
pub struct IoError;
pub type IoResult<T> = std::result::Result<T, IoError>;
impl FromSpecImpl<IoError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: IoError) -> Error { Error } }
impl From<IoError> for Error { #[verifier::external_body] fn from(v: IoError) -> Error { unimplemented!() } }
pub type Uuid = u128;

// ---- paths
// trusted: camino, pathdiff: an absolute path has a parent, diff_utf8_paths gives a path that leads from the parent to the file
pub struct Utf8PathBuf { pub p: Ghost<int> }
pub type Ext = &'static str;
pub uninterp spec fn parent_of(p: int) -> int;
pub uninterp spec fn resolve(dir: int, rel: int) -> int;
pub uninterp spec fn empty_path() -> int;
pub uninterp spec fn with_ext(p: int, e: Seq<char>) -> int;
impl Utf8PathBuf {
    #[verifier::external_body]
    pub fn new() -> (r: Utf8PathBuf) ensures r.p@ == empty_path() { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<Utf8PathBuf>) ensures r matches Some(d) && d.p@ == parent_of(self.p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: Utf8PathBuf) ensures r.p == self.p { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.p@ == empty_path()) { unimplemented!() }
    // (the directory is that of the path; different extensions, different paths)
    #[verifier::external_body]
    pub fn set_extension(&mut self, e: &str)
        ensures final(self).p@ == with_ext(old(self).p@, e@), parent_of(final(self).p@) == parent_of(old(self).p@), final(self).p@ != empty_path(), forall|q: Seq<char>| q != e@ ==> #[trigger] with_ext(old(self).p@, q) != final(self).p@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn same(&self, o: &Utf8PathBuf) -> (r: bool) ensures r == (self.p == o.p) { unimplemented!() }
}
#[verifier::external_body]
pub fn diff_utf8_paths(p: Utf8PathBuf, dir: &Utf8PathBuf) -> (r: Option<Utf8PathBuf>)
    ensures r matches Some(l) && l.p@ != empty_path() && resolve(dir.p@, l.p@) == p.p@
{ unimplemented!() }
#[verifier::external_body]
pub fn absolute_utf8(p: &Utf8PathBuf) -> (r: IoResult<Utf8PathBuf>) ensures r matches Ok(a) ==> a.p@ != empty_path() { unimplemented!() }

// ---- what a file holds, and the files that have their final name
pub ghost struct Content {
    /// nothing is missing
    pub finished: bool,
    /// the packs in it
    pub has: Set<Uuid>,
    /// the packs its manifest names, with their locations (the empty one for a pack of the same file)
    pub names: Seq<(Uuid, int)>,
}
pub ghost struct Published { pub path: int, pub content: Content }
/// the names that were given to files, in their order: the only change to what others see
pub struct World { pub log: Ghost<Seq<Published>> }
/// the file which has this name is complete and has this pack
pub open spec fn there(log: Seq<Published>, path: int, uuid: Uuid) -> bool {
    exists|k: int| 0 <= k < log.len() && is_last(log, k, path) && (#[trigger] log[k]).content.finished && log[k].content.has.contains(uuid)
}
pub open spec fn is_last(log: Seq<Published>, k: int, path: int) -> bool { log[k].path == path && forall|j: int| k < j < log.len() ==> (#[trigger] log[j]).path != path }
pub open spec fn found(log: Seq<Published>, path: int, c: Content, name: (Uuid, int)) -> bool {
    if name.1 == empty_path() { c.has.contains(name.0) } else { there(log, resolve(parent_of(path), name.1), name.0) }
}
/// the file may take this name: it is complete, and so are the packs it names
pub open spec fn publishable(log: Seq<Published>, path: int, c: Content) -> bool {
    c.finished && forall|k: int| 0 <= k < c.names.len() ==> found(log.push(Published { path, content: c }), path, c, #[trigger] c.names[k])
}
pub open spec fn extends(a: Seq<Published>, b: Seq<Published>) -> bool { b.len() >= a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
/// nothing took this name since
pub open spec fn untouched(a: Seq<Published>, b: Seq<Published>, path: int) -> bool { extends(a, b) && forall|i: int| a.len() <= i < b.len() ==> (#[trigger] b[i]).path != path }
pub proof fn there_last(log: Seq<Published>, p: Published, uuid: Uuid)
    requires p.content.finished, p.content.has.contains(uuid),
    ensures there(log.push(p), p.path, uuid),
{ let l = log.push(p); assert(l[log.len() as int] == p); assert(is_last(l, log.len() as int, p.path)); }
pub proof fn there_stays(log: Seq<Published>, p: Published, path: int, uuid: Uuid)
    requires there(log, path, uuid), p.path != path,
    ensures there(log.push(p), path, uuid),
{
    let k = choose|k: int| 0 <= k < log.len() && is_last(log, k, path) && (#[trigger] log[k]).content.finished && log[k].content.has.contains(uuid);
    let l = log.push(p);
    assert(l[k] == log[k]);
    assert(is_last(l, k, path));
}
pub proof fn untouched_more(a: Seq<Published>, b: Seq<Published>, p: Published, path: int)
    requires untouched(a, b, path), p.path != path,
    ensures untouched(a, b.push(p), path),
{ }
pub proof fn there_untouched(a: Seq<Published>, b: Seq<Published>, path: int, uuid: Uuid)
    requires there(a, path, uuid), untouched(a, b, path),
    ensures there(b, path, uuid),
{
    let k = choose|k: int| 0 <= k < a.len() && is_last(a, k, path) && (#[trigger] a[k]).content.finished && a[k].content.has.contains(uuid);
    assert(b[k] == a[k]);
    assert forall|j: int| k < j < b.len() implies (#[trigger] b[j]).path != path by { if j < a.len() { assert(b[j] == a[j]); } }
    assert(is_last(b, k, path));
}
/// the pack is where the manifest of the destination says
pub open spec fn named(log: Seq<Published>, out: int, has: Set<Uuid>, name: (Uuid, int)) -> bool {
    if name.1 == empty_path() { has.contains(name.0) } else { resolve(parent_of(out), name.1) != out && there(log, resolve(parent_of(out), name.1), name.0) }
}
pub proof fn all_named(log: Seq<Published>, out: int, c: Content)
    requires c.finished, forall|k: int| 0 <= k < c.names.len() ==> named(log, out, c.has, #[trigger] c.names[k]),
    ensures publishable(log, out, c),
{
    let p = Published { path: out, content: c };
    assert forall|k: int| 0 <= k < c.names.len() implies found(log.push(p), out, c, #[trigger] c.names[k]) by {
        let name = c.names[k];
        assert(named(log, out, c.has, name));
        if name.1 != empty_path() { there_stays(log, p, resolve(parent_of(out), name.1), name.0); }
    }
}
/// a location as it is recorded: from the directory of the destination
pub open spec fn relocates(dir: int, p: int, r: int) -> bool { if p == empty_path() { r == empty_path() } else { r != empty_path() && resolve(dir, r) == p } }
// trusted: tempfile: a NamedTempFile is a new file in this directory, with a name of its own; persist is a rename in a file system, which
// happens at once or not at all
pub struct NamedTempFile { pub dir: Ghost<int>, pub content: Ghost<Content> }
pub struct PersistError { pub error: IoError }
impl NamedTempFile {
    #[verifier::external_body]
    pub fn new_in(dir: Utf8PathBuf) -> (r: IoResult<NamedTempFile>)
        ensures r matches Ok(f) ==> f.dir == dir.p && !f.content@.finished && f.content@.has == Set::<Uuid>::empty() && f.content@.names.len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn persist(self, path: &Utf8PathBuf, world: &mut World) -> (r: std::result::Result<(), PersistError>)
        requires self.dir@ == parent_of(path.p@), publishable(old(world).log@, path.p@, self.content@),
        ensures final(world).log@ == (if r is Ok { old(world).log@.push(Published { path: path.p@, content: self.content@ }) } else { old(world).log@ }),
    { unimplemented!() }
}
pub struct AtomicOutFile { pub temp_file: NamedTempFile, pub final_path: Utf8PathBuf }
impl AtomicOutFile {
    pub open spec fn ok(&self) -> bool { self.temp_file.dir@ == parent_of(self.final_path.p@) }
    pub open spec fn fresh(&self) -> bool { self.ok() && !self.temp_file.content@.finished && self.temp_file.content@.has == Set::<Uuid>::empty() && self.temp_file.content@.names.len() == 0 }
    // the world is the same: a temporary file
    /*@fn src/creator/mod.rs | impl AtomicOutFile | new
    ensures r matches Ok(f) ==> f.fresh() && f.final_path.p == final_path.p,
    @sub `new<P: AsRef<Utf8Path>>(final_path: P)` => `new(final_path: &Utf8PathBuf)`
    @sub `Box<Self>` => `Self`
    @sub `final_path.as_ref()` => `final_path`
    @sub `tempfile::NamedTempFile` => `NamedTempFile`
    @sub `Box::new` => ``
    @*/
    /*@fn src/creator/mod.rs | impl PackRecipient for AtomicOutFile | close_file
    requires self.ok(), publishable(old(world).log@, self.final_path.p@, self.temp_file.content@),
    ensures
        r is Err ==> final(world).log == old(world).log,
        r matches Ok(p) ==> p.p == self.final_path.p && final(world).log@ == old(world).log@.push(Published { path: p.p@, content: self.temp_file.content@ }),
    @sub `self: Box<Self>` => `self, world: &mut World`
    @sub `.persist(&self.final_path)` => `.persist(&self.final_path, world)`
    @sub `|e| e.error` => `|e: PersistError| -> (r: IoError) { e.error }`
    @*/
}

// ---- the creators of packs, as they are seen from here
// proved elsewhere: a container holds the packs that were put in it: unit packaging
pub struct PackData { pub uuid: Uuid }
pub struct ContainerPackCreator { pub file: AtomicOutFile, pub has: Ghost<Set<Uuid>>, pub names: Ghost<Seq<(Uuid, int)>> }
pub struct InContainerFile { pub file: AtomicOutFile, pub has: Ghost<Set<Uuid>>, pub names: Ghost<Seq<(Uuid, int)>>, pub pack: Ghost<Option<(Uuid, Seq<(Uuid, int)>)>> }
/// where a pack can be written
pub trait Target: Sized {
    spec fn free(&self) -> bool;
    /// a is self with this pack written
    spec fn with(&self, a: &Self, uuid: Uuid, names: Seq<(Uuid, int)>) -> bool;
}
impl Target for InContainerFile {
    open spec fn free(&self) -> bool { self.pack@ is None }
    open spec fn with(&self, a: &Self, uuid: Uuid, names: Seq<(Uuid, int)>) -> bool { a.file == self.file && a.has == self.has && a.names == self.names && a.pack@ == Some((uuid, names)) }
}
impl Target for AtomicOutFile {
    open spec fn free(&self) -> bool { self.fresh() }
    open spec fn with(&self, a: &Self, uuid: Uuid, names: Seq<(Uuid, int)>) -> bool {
        a.final_path == self.final_path && a.temp_file.dir == self.temp_file.dir && a.temp_file.content@ == (Content { finished: true, has: Set::empty().insert(uuid), names })
    }
}
impl ContainerPackCreator {
    #[verifier::external_body]
    pub fn from_file(file: AtomicOutFile) -> (r: IoResult<ContainerPackCreator>)
        requires file.fresh(),
        ensures r matches Ok(c) ==> c.file == file && c.has@ == Set::<Uuid>::empty() && c.names@.len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_file(self) -> (r: IoResult<InContainerFile>)
        ensures r matches Ok(f) ==> f.file == self.file && f.has == self.has && f.names == self.names && f.pack@ is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: IoResult<AtomicOutFile>)
        ensures r matches Ok(f) ==> f.final_path == self.file.final_path && f.temp_file.dir == self.file.temp_file.dir && f.temp_file.content@ == (Content { finished: true, has: self.has@, names: self.names@ }),
    { unimplemented!() }
}
impl InContainerFile {
    #[verifier::external_body]
    pub fn close(self, uuid: Uuid) -> (r: IoResult<ContainerPackCreator>)
        requires self.pack@ matches Some(p) && p.0 == uuid,
        ensures r matches Ok(c) ==> c.file == self.file && c.has@ == self.has@.insert(uuid) && c.names@ == self.names@ + (self.pack@->0).1,
    { unimplemented!() }
}
pub struct Compression;
pub struct Progress;
pub struct VendorId;
pub struct PackId(pub u16);
impl FromSpecImpl<u16> for PackId { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u16) -> PackId { PackId(v) } }
impl From<u16> for PackId { fn from(v: u16) -> PackId { PackId(v) } }
pub struct DirectoryPackCreator;
pub struct FinalizedDirectory;
pub struct EntryStores;
impl EntryStores {
    #[verifier::external_body]
    pub fn finalize(self, d: &mut DirectoryPackCreator) { unimplemented!() }
}
impl DirectoryPackCreator {
    #[verifier::external_body]
    pub fn new(id: PackId) -> DirectoryPackCreator { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> Result<FinalizedDirectory> { unimplemented!() }
}
impl FinalizedDirectory {
    // (a directory names no pack)
    #[verifier::external_body]
    pub fn write<T: Target>(self, file: &mut T) -> (r: Result<PackData>)
        requires old(file).free(),
        ensures r matches Ok(d) ==> old(file).with(final(file), d.uuid, Seq::empty()),
    { unimplemented!() }
}
pub struct ContentPackCreator { pub file: InContainerFile }
impl ContentPackCreator {
    #[verifier::external_body]
    pub fn new_from_output_with_progress(file: InContainerFile, id: PackId, compression: Compression, progress: Progress) -> (r: Result<ContentPackCreator>)
        requires file.free(),
        ensures r matches Ok(c) ==> c.file == file,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: IoResult<(InContainerFile, PackData)>)
        requires self.file.free(),
        ensures r matches Ok((f, d)) ==> self.file.with(&f, d.uuid, Seq::empty()),
    { unimplemented!() }
}
// assumed: the file of an extra pack is not that of the container, and it is complete where close_file says once it is closed
pub struct ExtraCreator { pub path: Ghost<int> }
pub struct ExtraFile { pub path: Ghost<int>, pub uuid: Ghost<Uuid> }
impl ExtraCreator {
    #[verifier::external_body]
    pub fn finalize(self) -> (r: IoResult<(ExtraFile, PackData)>)
        ensures r matches Ok((f, d)) ==> f.path == self.path && f.uuid@ == d.uuid,
    { unimplemented!() }
}
impl ExtraFile {
    /// what the file holds once it is closed, or when that fails
    pub uninterp spec fn done(&self) -> Content;
    pub uninterp spec fn left(&self) -> Content;
    #[verifier::external_body]
    pub fn close_file(self, world: &mut World) -> (r: Result<Utf8PathBuf>)
        ensures
            r is Err ==> final(world).log@ == old(world).log@ || final(world).log@ == old(world).log@.push(Published { path: self.path@, content: self.left() }),
            r matches Ok(p) ==> p.p == self.path && self.done().finished && self.done().has.contains(self.uuid@) && final(world).log@ == old(world).log@.push(Published { path: self.path@, content: self.done() }),
    { unimplemented!() }
}
// proved elsewhere: a manifest names the packs it was given: unit packaging
pub struct ManifestPackCreator { pub names: Ghost<Seq<(Uuid, int)>> }
impl ManifestPackCreator {
    #[verifier::external_body]
    pub fn new() -> (r: ManifestPackCreator) ensures r.names@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn add_pack(&mut self, info: PackData, locator: Utf8PathBuf) ensures final(self).names@ == old(self).names@.push((info.uuid, locator.p@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize<T: Target>(self, file: &mut T) -> (r: Result<Uuid>)
        requires old(file).free(),
        ensures r matches Ok(u) ==> old(file).with(final(file), u, self.names@),
    { unimplemented!() }
}

#[derive(Clone, Copy)] pub enum ConcatMode { OneFile, TwoFiles, NoConcat }
/*@fn src/creator/basic_creator.rs | | new_with_extension
ensures
    r.p@ != path.p@, r.p@ != empty_path(), parent_of(r.p@) == parent_of(path.p@),
    r.p@ == with_ext(path.p@, extension@) || r.p@ == with_ext(path.p@, twice(extension@)),
@sub `path: &Utf8Path` => `path: &Utf8PathBuf`
@sub `if buf == path` => `if buf.same(path)`
@sub `/format!\("\{extension\}\.\{extension\}"\)/` => `format_twice(extension)`
@*/
pub open spec fn twice(e: Seq<char>) -> Seq<char> { e + seq!['.'] + e }
// trusted: format!
#[verifier::external_body]
pub fn format_twice(e: &str) -> (r: &'static str) ensures r@ == twice(e@) { unimplemented!() }
/// the file of the content when it is not in the destination
pub open spec fn content_path(out: int, p: int) -> bool { p != out && p != empty_path() && (p == with_ext(out, "jbkc"@) || p == with_ext(out, twice("jbkc"@))) }
pub open spec fn directory_path(out: int, p: int) -> bool { p != out && p != empty_path() && (p == with_ext(out, ".jbkd"@) || p == with_ext(out, twice(".jbkd"@))) }
pub proof fn apart(out: int, p: int, q: int)
    requires content_path(out, p), directory_path(out, q),
    ensures p != q,
{
    reveal_strlit("jbkc");
    reveal_strlit(".jbkd");
    let (a, b) = ("jbkc"@, ".jbkd"@);
    assert(a[0] == 'j' && b[0] == '.' && twice(a)[0] == 'j' && twice(b)[0] == '.');
    ext_distinct(out, a, b); ext_distinct(out, a, twice(b)); ext_distinct(out, twice(a), b); ext_distinct(out, twice(a), twice(b));
}
// trusted: camino: different extensions, different paths
#[verifier::external_body]
pub proof fn ext_distinct(p: int, a: Seq<char>, b: Seq<char>) requires a != b ensures with_ext(p, a) != with_ext(p, b) {}
pub struct BasicCreator { pub directory_pack: DirectoryPackCreator, pub content_pack: ContentPackCreator, pub concat_mode: ConcatMode, pub vendor_id: VendorId, pub outpath: Utf8PathBuf }
impl BasicCreator {
    pub open spec fn inv(&self) -> bool {
        let f = self.content_pack.file;
        &&& f.free() && f.file.fresh() && f.has@ == Set::<Uuid>::empty() && f.names@.len() == 0
        // the content is written to the destination if it is to hold everything, and not otherwise
        &&& self.outpath.p@ != empty_path()
        &&& if self.concat_mode is OneFile { f.file.final_path.p == self.outpath.p } else { content_path(self.outpath.p@, f.file.final_path.p@) && parent_of(f.file.final_path.p@) == parent_of(self.outpath.p@) }
    }
    /// is this one of the files of this creation?
    pub open spec fn own(&self, p: int) -> bool { p == self.outpath.p@ || p == self.content_pack.file.file.final_path.p@ || directory_path(self.outpath.p@, p) }
    // (the destination does not change: there is no World here)
    /*@fn src/creator/basic_creator.rs | impl BasicCreator | new
    ensures r matches Ok(c) ==> c.inv(),
    @sub `outpath: impl AsRef<Utf8Path>` => `outpath: &Utf8PathBuf`
    @sub `progress: Arc<dyn Progress>` => `progress: Progress`
    @sub `camino::absolute_utf8(outpath.as_ref())` => `absolute_utf8(outpath)`
    @sub `AtomicOutFile::new(new_with_extension(&outpath, "jbkc"))` => `AtomicOutFile::new(&new_with_extension(&outpath, "jbkc"))`
    @sub `/(from_file\([^,()]*), Default::default\(\)\)/` => `\1)`
    @sub `/PackId::from\((\d)\),\s*vendor_id,\s*Default::default\(\)/` => `PackId::from(\1)`
    @*/
    /*@fn src/creator/basic_creator.rs | impl BasicCreator | finalize
    requires
        self.inv(),
        forall|k: int| 0 <= k < extra_content_pack_creators@.len() ==> !self.own(#[trigger] extra_content_pack_creators@[k].path@) && extra_content_pack_creators@[k].path@ != empty_path(),
        forall|j: int, k: int| 0 <= j < k < extra_content_pack_creators@.len() ==> (#[trigger] extra_content_pack_creators@[j]).path@ != (#[trigger] extra_content_pack_creators@[k]).path@,
    ensures
        // (every file that took its name was complete, and the packs it names too: precondition of close_file)
        r is Err ==> untouched(old(world).log@, final(world).log@, self.outpath.p@),
        r is Ok ==> ({ let l = final(world).log@; l.len() > 0 && l.last().path == self.outpath.p@ && untouched(old(world).log@, l.drop_last(), self.outpath.p@)
            // the manifest has its packs: directory, content and the others
            && l.last().content.names.len() == 2 + extra_content_pack_creators@.len() }),
    @sub `Box<dyn EntryStoreTrait>` => `EntryStores`
    @sub `Vec<ContentPackCreator<dyn PackRecipient>>,` => `Vec<ExtraCreator>, world: &mut World,`
    @sub `|p: Utf8PathBuf| {` => `|p: Utf8PathBuf| -> (r: Utf8PathBuf) ensures relocates(parent_path.p@, p.p@, r.p@) {`
    @sub `p.as_str().is_empty()` => `p.is_empty()`
    @sub `diff_utf8_paths(p, parent_path)` => `diff_utf8_paths(p, &parent_path)`
    @sub `close_file()` => `close_file(world)`
    @sub `/(from_file\(\s*\w+),\s*Default::default\(\),?\s*\)/` => `\1)`
    @sub `AtomicOutFile::new(new_with_extension(&self.outpath, ".jbkd"))` => `AtomicOutFile::new(&new_with_extension(&self.outpath, ".jbkd"))`
    @sub `ManifestPackCreator::new(self.vendor_id, Default::default())` => `ManifestPackCreator::new()`
    @sub `/let extra_locators = extra_content_pack_creators\s*\.into_iter\(\)\s*\.map\(\|extra_creator\| \{/` => `let extra_locators = { let mut all: Vec<(PackData, Utf8PathBuf)> = Vec::new(); for extra_creator in it: extra_content_pack_creators {`
    @sub `/Ok::<_, Error>\(\((\w+), (\w+)\)\)\s*\}\)\s*\.collect::<Result<Vec<_>>>\(\)\?;/` => `all.push((\1, \2)); } all };`
    @sub `for (extra_pack_info, extra_locator) in extra_locators` => `for (extra_pack_info, extra_locator) in it: extra_locators`
    @start
        let ghost log0 = world.log@;
        let ghost out = self.outpath.p@;
        let ghost cpath = self.content_pack.file.file.final_path.p@;
        let ghost extras = extra_content_pack_creators@;
        let ghost m = self;
    @after `let content_pack_path =`
                    proof { there_last(log0, world.log@.last(), content_pack_info.uuid); assert(world.log@.last().path == cpath); }
    @before `let extra_locators =`
        let ghost log1 = world.log@;
        let ghost cu = content_pack_info.uuid;
        let ghost inside = m.concat_mode is OneFile;
        proof {
            assert(inside ==> container is Some && content_locator.p@ == empty_path() && (container->0).has@.contains(cu));
            assert(!inside ==> content_locator.p@ == cpath && there(log1, cpath, cu));
            assert(untouched(log0, log1, out));
        }
    @loop 1
        invariant
            it.seq() == extras, all@.len() == it.index@, untouched(log0, world.log@, out), untouched(log1, world.log@, cpath) || inside,
            forall|k: int| 0 <= k < extras.len() ==> !m.own(#[trigger] extras[k].path@) && extras[k].path@ != empty_path(),
            forall|j: int, k: int| 0 <= j < k < extras.len() ==> (#[trigger] extras[j]).path@ != (#[trigger] extras[k]).path@,
            forall|k: int| 0 <= k < it.index@ ==> (#[trigger] all@[k]).1.p == extras[k].path && there(world.log@, extras[k].path@, all@[k].0.uuid),
            log0 == old(world).log@, out == self.outpath.p@, m == self, cpath == self.content_pack.file.file.final_path.p@,
    @before `let extra_path =`
            let ghost before = world.log@;
            let ghost cur = extra_pack_file;
            proof { assert(!m.own(extras[it.index@].path@)); }
    @after `let extra_path =`
            proof {
                let p = Published { path: cur.path@, content: cur.done() };
                there_last(before, p, extra_pack_info.uuid);
                assert forall|k: int| 0 <= k < it.index@ implies there(world.log@, extras[k].path@, (#[trigger] all@[k]).0.uuid) by { assert(extras[k].path@ != extras[it.index@].path@); there_stays(before, p, extras[k].path@, all@[k].0.uuid); }
            }
    @before `let (directory_pack_info, directory_locator) =`
        let ghost log2 = world.log@;
        let ghost others = extra_locators@;
        proof { if !inside { there_untouched(log1, log2, cpath, cu); } }
    @after `let directory_pack_path =`
                proof {
                    let p = world.log@.last();
                    there_last(log2, p, directory_pack_info.uuid);
                    apart(out, cpath, p.path);
                    there_stays(log2, p, cpath, cu);
                    assert forall|k: int| 0 <= k < others.len() implies there(world.log@, (#[trigger] others[k]).1.p@, others[k].0.uuid) by { assert(!m.own(extras[k].path@)); there_stays(log2, p, others[k].1.p@, others[k].0.uuid); }
                }
    @before `let mut manifest_creator =`
        let ghost log3 = world.log@;
        let ghost du = directory_pack_info.uuid;
        let ghost has = if container is Some { (container->0).has@ } else { Set::empty() };
        proof {
            assert forall|k: int| 0 <= k < others.len() implies there(log3, (#[trigger] others[k]).1.p@, others[k].0.uuid) && others[k].1.p@ != out && others[k].1.p@ != empty_path() by { assert(!m.own(extras[k].path@)); }
            assert(inside ==> has.contains(cu));
            assert(container is Some ==> has.contains(du) && directory_locator.p@ == empty_path());
            assert(container is None ==> there(log3, directory_locator.p@, du) && directory_path(out, directory_locator.p@));
            assert(untouched(log0, log3, out));
        }
    @loop 2
        invariant
            it.seq() == others, world.log@ == log3, manifest_creator.names@.len() == 2 + it.index@,
            forall|p: Utf8PathBuf| relative_locator.requires((p,)), forall|p: Utf8PathBuf, r: Utf8PathBuf| relative_locator.ensures((p,), r) ==> relocates(parent_of(out), p.p@, r.p@),
            forall|k: int| 0 <= k < others.len() ==> there(log3, (#[trigger] others[k]).1.p@, others[k].0.uuid) && others[k].1.p@ != out && others[k].1.p@ != empty_path(),
            forall|k: int| 0 <= k < 2 + it.index@ ==> named(log3, out, has, #[trigger] manifest_creator.names@[k]),
    @after `manifest_creator.add_pack(extra_pack_info,`
            proof {
                let o = others[it.index@];
                assert(there(log3, o.1.p@, o.0.uuid));
                assert(relocates(parent_of(out), o.1.p@, manifest_creator.names@.last().1));
                assert(named(log3, out, has, manifest_creator.names@.last()));
            }
    @before 2 `atomic_tmp_file.close_file(world)?;`
                proof { all_named(log3, out, atomic_tmp_file.temp_file.content@); }
    @before 2 `container_file.close_file(world)?;`
            proof {
                let c = container_file.temp_file.content@;
                assert forall|k: int| 0 <= k < c.names.len() implies named(log3, out, c.has, #[trigger] c.names[k]) by { }
                all_named(log3, out, c);
            }
    @*/
}
} // verus!
fn main() {}
