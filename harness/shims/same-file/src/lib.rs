//! stand-in for same-file: a file is its device and inode, and stays open meanwhile
use std::os::unix::fs::MetadataExt;
#[derive(Debug)]
pub struct Handle {
    _file: std::fs::File,
    dev: u64,
    ino: u64,
}
impl Handle {
    pub fn from_path<P: AsRef<std::path::Path>>(p: P) -> std::io::Result<Handle> {
        let f = std::fs::File::open(p)?;
        let m = f.metadata()?;
        Ok(Handle { dev: m.dev(), ino: m.ino(), _file: f })
    }
}
impl PartialEq for Handle {
    fn eq(&self, o: &Handle) -> bool {
        (self.dev, self.ino) == (o.dev, o.ino)
    }
}
impl Eq for Handle {}
impl std::hash::Hash for Handle {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (self.dev, self.ino).hash(h)
    }
}
