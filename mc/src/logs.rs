//! Batch and simple log processors.
use crate::spans::{batch_scenarios, sdk, st, DELAY};
use crate::util::*;
use mcstd::explore::Scenario;
use mcstd::real::sync::{Mutex as RMutex, OnceLock as ROnce};
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _};
use opentelemetry::InstrumentationScope;
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{BatchConfigBuilder, BatchLogProcessor, LogBatch, LogExporter, LogProcessor, SdkLogRecord, SdkLoggerProvider};
use opentelemetry_sdk::Resource;
use std::sync::Arc;
use std::time::Duration;

#[derive(Debug)]
pub struct LogExp(pub Arc<Rec>);
pub fn id_of(r: &SdkLogRecord) -> u32 {
    match r.body() {
        Some(AnyValue::Int(i)) => *i as u32,
        o => panic!("body {o:?}"),
    }
}
impl LogExporter for LogExp {
    async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
        sdk(self.0.export(batch.iter().map(|(r, _)| id_of(r)).collect()))
    }
    fn shutdown(&self) -> OTelSdkResult {
        sdk(self.0.shutdown())
    }
    fn set_resource(&mut self, r: &Resource) {
        let v = r.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(",");
        self.0.i.lock().unwrap().resource = Some(v);
    }
}

#[derive(Debug)]
struct Capture;
static TEMPLATE: RMutex<Option<SdkLogRecord>> = RMutex::new(None);
impl LogProcessor for Capture {
    fn emit(&self, data: &mut SdkLogRecord, _: &InstrumentationScope) {
        *TEMPLATE.lock().unwrap() = Some(data.clone());
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}
/// a record with this id; the template is made once, on an uncontrolled thread
pub fn record(id: u32) -> SdkLogRecord {
    static ONCE: ROnce<()> = ROnce::new();
    ONCE.get_or_init(|| {
        mcstd::real::thread::spawn(|| {
            let p = SdkLoggerProvider::builder().with_log_processor(Capture).build();
            let l = p.logger("t");
            l.emit(l.create_log_record());
        })
        .join()
        .unwrap();
    });
    let mut r = TEMPLATE.lock().unwrap().clone().unwrap();
    r.set_body(AnyValue::Int(id as i64));
    r
}

pub struct Lp<P>(pub P);
impl<P: LogProcessor> Sys for Lp<P> {
    fn rec(&self, id: u32) {
        self.0.emit(&mut record(id), &InstrumentationScope::default())
    }
    fn flush(&self) -> Result<(), String> {
        st(self.0.force_flush())
    }
    fn shutdown(&self) -> Result<(), String> {
        st(self.0.shutdown())
    }
}

fn blp(rec: &Arc<Rec>, lim: &Limits) -> Arc<dyn Sys> {
    Arc::new(Lp(BatchLogProcessor::builder(LogExp(rec.clone()))
        .with_batch_config(
            BatchConfigBuilder::default()
                .with_max_queue_size(lim.queue)
                .with_max_export_batch_size(lim.batch)
                .with_scheduled_delay(Duration::from_millis(DELAY))
                .build(),
        )
        .build()))
}

pub fn scenarios() -> Vec<Scenario> {
    batch_scenarios("C03", "C04", "blp", blp)
}
