//! A cloud whose points cannot always be read, and which counts how often it said so.
use crate::cases::Cloud;
use pointcloud::pc_errors::*;
use pointcloud::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::RwLock;

pub struct Faulty {
    pub inner: Cloud,
    /// points that cannot be read
    lost: RwLock<HashSet<usize>>,
    /// the access (counted from 1) that fails, 0 for none
    at: AtomicUsize,
    pub seen: AtomicUsize,
    pub failed: AtomicUsize,
    /// its indexes start here, this far apart
    spread: (usize, usize),
}

impl Faulty {
    pub fn new(inner: Cloud, lost: HashSet<usize>, at: usize) -> Faulty {
        Faulty {
            inner,
            lost: RwLock::new(lost),
            at: AtomicUsize::new(at),
            seen: AtomicUsize::new(0),
            failed: AtomicUsize::new(0),
            spread: (0, 1),
        }
    }
    pub fn apart(mut self, start: usize, step: usize) -> Faulty {
        self.spread = (start, step);
        self
    }
    fn row(&self, i: usize) -> PointCloudResult<usize> {
        let (start, step) = self.spread;
        if i >= start && (i - start) % step == 0 && (i - start) / step < self.inner.len() {
            Ok((i - start) / step)
        } else {
            Err(PointCloudError::DataAccessError { index: i, reason: "not there".to_string() })
        }
    }
    fn rows(&self, pns: &[usize]) -> PointCloudResult<Vec<usize>> {
        pns.iter().map(|i| self.row(*i)).collect()
    }
    pub fn arm(&self, lost: HashSet<usize>, at: usize) {
        *self.lost.write().unwrap() = lost;
        self.at.store(at, Ordering::SeqCst);
        self.seen.store(0, Ordering::SeqCst);
        self.failed.store(0, Ordering::SeqCst);
    }
    pub fn failures(&self) -> usize {
        self.failed.load(Ordering::SeqCst)
    }
}

impl PointCloud for Faulty {
    type Point = <Cloud as PointCloud>::Point;
    type PointRef<'a> = <Cloud as PointCloud>::PointRef<'a>;
    type Metric = <Cloud as PointCloud>::Metric;
    type Label = <Cloud as PointCloud>::Label;
    type LabelSummary = <Cloud as PointCloud>::LabelSummary;
    type Metadata = <Cloud as PointCloud>::Metadata;
    type MetaSummary = <Cloud as PointCloud>::MetaSummary;

    fn metadata(&self, pn: usize) -> PointCloudResult<Option<&Self::Metadata>> {
        self.inner.metadata(self.row(pn)?)
    }
    fn metasummary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<Self::MetaSummary>> {
        self.inner.metasummary(&self.rows(pns)?)
    }
    fn label(&self, pn: usize) -> PointCloudResult<Option<&Self::Label>> {
        self.inner.label(self.row(pn)?)
    }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<Self::LabelSummary>> {
        self.inner.label_summary(&self.rows(pns)?)
    }
    fn name(&self, pi: usize) -> PointCloudResult<String> {
        self.inner.name(self.row(pi)?)
    }
    fn index(&self, pn: &str) -> PointCloudResult<usize> {
        self.inner.index(pn).map(|i| self.spread.0 + i * self.spread.1)
    }
    fn names(&self) -> Vec<String> {
        self.inner.names()
    }
    fn len(&self) -> usize {
        self.inner.len()
    }
    fn is_empty(&self) -> bool {
        self.inner.is_empty()
    }
    fn dim(&self) -> usize {
        self.inner.dim()
    }
    fn reference_indexes(&self) -> Vec<usize> {
        self.inner.reference_indexes().iter().map(|i| self.spread.0 + i * self.spread.1).collect()
    }
    fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<Self::PointRef<'a>> {
        let i = self.row(i)?;
        let k = self.seen.fetch_add(1, Ordering::SeqCst) + 1;
        if k == self.at.load(Ordering::SeqCst) || self.lost.read().unwrap().contains(&i) {
            self.failed.fetch_add(1, Ordering::SeqCst);
            return Err(PointCloudError::DataAccessError { index: i, reason: "lost".to_string() });
        }
        self.inner.point(i)
    }
}
