//! Opens the manager's private modules to the monitors, in plain types.
use crate::background_work::{background_work, BackgroundThreadData, BackgroundThreadMessage};
use crate::config::GameConfig;
use crate::game_mod::SelectedVersion;
use crate::mod_processing::dependencies::{DependencyGraph, ModWithDependencies};
use crate::profile::{Profile, ProfileMod};
use crate::{FileToProcess, ModLoaderAppData};
use parking_lot::Mutex;
use semver::{Version, VersionReq};
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};
use std::sync::mpsc::{sync_channel, SyncSender};
use std::sync::Arc;
use std::time::Instant;
use unreal_mod_integrator::IntegratorConfig;
use unreal_mod_metadata::{Dependency, DownloadInfo};

/// the dependency graph
#[derive(Default)]
pub struct Graph(DependencyGraph);
impl Graph {
    pub fn add(&mut self, mods: Vec<(String, Vec<Version>, HashMap<String, Dependency>)>) -> HashMap<String, (VersionReq, Vec<DownloadInfo>)> {
        let m: Vec<_> = mods.into_iter().map(|(i, v, d)| ModWithDependencies::new(i, v, d)).collect();
        self.0.add_mods(&m)
    }
    /// chosen versions; unresolved mods with who asked for what
    pub fn validate(&self) -> (HashMap<String, Version>, Vec<(String, Vec<(String, String)>)>) {
        let (m, w) = self.0.validate_graph();
        let w = w.into_iter().map(|w| match w.kind {
            crate::error::ModLoaderWarningKind::UnresolvedDependency(i, d) => (i, d),
            k => (format!("{k:?}"), vec![]),
        });
        (m, w.collect())
    }
    pub fn dependents(&self, id: &str) -> Vec<String> {
        self.0.find_mod_dependents(id)
    }
    pub fn dependents_with_version(&self, id: &str) -> Vec<(String, String)> {
        self.0.find_mod_dependents_with_version(id)
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Select {
    Latest,
    Exact(Version),
}
#[derive(Debug, Clone, PartialEq)]
pub struct SnapVersion {
    pub file: String,
    pub downloaded: bool,
    pub url: Option<String>,
    pub metadata: bool,
}
#[derive(Debug, Clone, PartialEq)]
pub struct SnapMod {
    pub versions: BTreeMap<Version, SnapVersion>,
    pub selected: Option<Version>,
    pub pinned: bool,
    pub from_index: bool,
    pub enabled: bool,
    pub name: String,
    pub author: Option<String>,
    pub size: u64,
    pub dependencies: Vec<String>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Snap {
    pub mods: BTreeMap<String, SnapMod>,
    pub profiles: Vec<(String, BTreeMap<String, (bool, u16, String)>)>,
    pub trusted: Vec<Vec<u8>>,
    pub untrusted: Vec<(String, Vec<u8>)>,
    pub warnings: Vec<String>,
    pub failed: bool,
    pub error: Option<String>,
    pub refuse: bool,
    pub platform: Option<String>,
}
pub type Guard = fn(Box<dyn FnOnce() + Send>) -> Result<(), String>;
/// a running background thread; every call returns when its work is done
pub struct Session {
    tx: SyncSender<BackgroundThreadMessage>,
    data: Arc<Mutex<ModLoaderAppData>>,
    working: Arc<AtomicBool>,
    ready_exit: Arc<AtomicBool>,
    thread: Option<std::thread::JoinHandle<Result<(), String>>>,
}
impl Session {
    pub fn start<'data, GC, IC, D: 'data, E: 'static + std::error::Error + Send>(config: GC, base: PathBuf, guard: Guard) -> Result<Session, String>
    where
        IC: 'static + IntegratorConfig<'data, D, E>,
        GC: 'static + GameConfig<'data, IC, D, E>,
    {
        let data = Arc::new(Mutex::new(ModLoaderAppData { refuse_mismatched_connections: true, install_managers: config.get_install_managers(), ..Default::default() }));
        let ready_exit = Arc::new(AtomicBool::new(false));
        let working = Arc::new(AtomicBool::new(true));
        // without a buffer, a message is taken only when the one before is done
        let (tx, rx) = sync_channel(0);
        let b = BackgroundThreadData {
            data: data.clone(),
            use_cpp_loader: false,
            ready_exit: ready_exit.clone(),
            last_integration_time: Arc::new(Mutex::new(Instant::now())),
            working: working.clone(),
            newer_update: Arc::new(Mutex::new(None)),
            should_update: Arc::new(AtomicBool::new(false)),
            update_progress: Arc::new(AtomicI32::new(0)),
        };
        let thread = std::thread::spawn(move || {
            directories::set_base(Some(base));
            guard(Box::new(move || {
                let _ = background_work(config, b, rx);
            }))
        });
        let mut s = Session { tx, data, working, ready_exit, thread: Some(thread) };
        s.wait()?;
        Ok(s)
    }
    fn send(&mut self, m: BackgroundThreadMessage) -> Result<(), String> {
        if self.tx.send(m).is_ok() {
            return Ok(());
        }
        Err(match self.thread.take().map(|t| t.join()) {
            Some(Ok(Err(m))) => m,
            Some(Err(_)) => "the background thread panicked".into(),
            _ => "the background thread ended".into(),
        })
    }
    /// removing a mod that is not there does nothing, but is taken only after all before it
    fn wait(&mut self) -> Result<(), String> {
        self.send(BackgroundThreadMessage::RemoveMod("\0no such mod".into()))
    }
    fn run(&mut self, m: BackgroundThreadMessage) -> Result<(), String> {
        self.send(m)?;
        self.wait()
    }
    pub fn import(&mut self, files: Vec<PathBuf>) -> Result<(), String> {
        self.run(BackgroundThreadMessage::Import(files.into_iter().map(|f| FileToProcess::new(f, true)).collect()))
    }
    pub fn remove(&mut self, id: &str) -> Result<(), String> {
        self.run(BackgroundThreadMessage::RemoveMod(id.into()))
    }
    pub fn integrate(&mut self) -> Result<(), String> {
        self.run(BackgroundThreadMessage::integrate())
    }
    pub fn write_config(&mut self) -> Result<(), String> {
        self.run(BackgroundThreadMessage::WriteConfig)
    }
    pub fn exit(mut self) -> Result<bool, String> {
        self.send(BackgroundThreadMessage::Exit)?;
        match self.thread.take().map(|t| t.join()) {
            Some(Ok(Ok(()))) => Ok(self.ready_exit.load(Ordering::Acquire)),
            Some(Ok(Err(m))) => Err(m),
            _ => Err("the background thread panicked".into()),
        }
    }
    pub fn working(&self) -> bool {
        self.working.load(Ordering::Acquire)
    }
    // what the window does
    pub fn enable(&self, id: &str, on: bool) {
        if let Some(m) = self.data.lock().game_mods.get_mut(id) {
            m.enabled = on;
        }
    }
    pub fn select(&self, id: &str, s: &Select) {
        let mut d = self.data.lock();
        let Some(m) = d.game_mods.get_mut(id) else { return };
        m.selected_version = match s {
            Select::Exact(v) => SelectedVersion::Specific(v.clone()),
            Select::Latest => match &m.latest_version {
                Some(v) if m.download.is_some() => SelectedVersion::Latest(v.clone()),
                v => SelectedVersion::LatestIndirect(v.clone()),
            },
        };
    }
    pub fn set_refuse(&self, on: bool) {
        self.data.lock().refuse_mismatched_connections = on;
    }
    pub fn set_platform(&self, p: &str) -> bool {
        self.data.lock().set_game_platform(p).is_ok()
    }
    pub fn save_profile(&self, name: &str) {
        let mut d = self.data.lock();
        let mods = d.game_mods.iter().filter(|m| m.1.enabled).map(|(i, m)| {
            (i.clone(), ProfileMod { force_latest: m.selected_version.is_latest(), version: m.selected_version.clone().unwrap().to_string(), ..Default::default() })
        });
        let p = Profile { name: name.into(), mods: mods.collect() };
        d.profiles.push(p);
    }
    pub fn delete_profile(&self, i: usize) {
        let mut d = self.data.lock();
        if i < d.profiles.len() {
            d.profiles.remove(i);
        }
    }
    pub fn trust_all(&self) {
        let mut d = self.data.lock();
        let u: Vec<_> = d.untrusted_mods.iter().map(|u| u.hash.clone()).collect();
        d.trusted_mods.extend(u);
        d.untrusted_mods.clear();
    }
    pub fn clear_warnings(&self) {
        self.data.lock().warnings.clear();
    }
    pub fn snap(&self) -> Snap {
        let d = self.data.lock();
        Snap {
            mods: d
                .game_mods
                .iter()
                .map(|(i, m)| {
                    let (selected, pinned, from_index) = match &m.selected_version {
                        SelectedVersion::Latest(v) => (Some(v.clone()), false, true),
                        SelectedVersion::LatestIndirect(v) => (v.clone(), false, false),
                        SelectedVersion::Specific(v) => (Some(v.clone()), true, false),
                    };
                    let versions = m.versions.iter().map(|(v, x)| (v.clone(), SnapVersion { file: x.file_name.clone(), downloaded: x.downloaded, url: x.download_url.clone(), metadata: x.metadata.is_some() }));
                    let mut dependencies: Vec<_> = m.dependencies.keys().cloned().collect();
                    dependencies.sort();
                    let m = SnapMod { versions: versions.collect(), selected, pinned, from_index, enabled: m.enabled, name: m.name.clone(), author: m.author.clone(), size: m.size, dependencies };
                    (i.clone(), m)
                })
                .collect(),
            profiles: d.profiles.iter().map(|p| (p.name.clone(), p.mods.iter().map(|(i, m)| (i.clone(), (m.force_latest, m.priority, m.version.clone()))).collect())).collect(),
            trusted: d.trusted_mods.clone(),
            untrusted: d.untrusted_mods.iter().map(|u| (u.name.clone(), u.hash.clone())).collect(),
            warnings: d.warnings.iter().map(|w| format!("{w:?}")).collect(),
            failed: d.failed,
            error: d.error.as_ref().map(|e| e.to_string()),
            refuse: d.refuse_mismatched_connections,
            platform: d.selected_game_platform.clone(),
        }
    }
}
