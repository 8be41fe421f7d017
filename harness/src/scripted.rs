//! A rule whose matches are scripted by the case (the library lets users bring their own rules
//! through the public `RuleConfig` / `CompiledRule` traits). Lets the driver put any set of
//! candidate spans in front of overlap resolution, multi-pass filtering and rewriting.
use crate::conv;
use ahash::AHashSet;
use dd_sds::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone)]
pub struct ScriptedConfig {
    action: MatchAction,
    scope: Scope,
    /// content -> byte spans, in emission order
    spans: HashMap<String, Vec<(usize, usize)>>,
    /// emit the whole string as one match, whatever it is
    whole: bool,
    multipass: bool,
    /// records what the library hands to the rule; the types of its group data, group config and scan cache
    probe: Option<[u64; 3]>,
    /// the rule cannot be compiled
    broken: bool,
}

impl ScriptedConfig {
    pub fn from_json(v: &Value) -> Self {
        let mut spans = HashMap::new();
        if let Some(a) = v["spans"].as_array() {
            for e in a {
                let l = e["sp"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|p| (conv::usz(&p[0]), conv::usz(&p[1])))
                    .collect();
                spans.insert(conv::st(&e["s"]), l);
            }
        }
        ScriptedConfig {
            action: conv::action(&v["act"]),
            scope: if v["scope"].is_object() { conv::scope(&v["scope"]) } else { Scope::all() },
            spans,
            whole: v["whole"].as_bool().unwrap_or(false),
            multipass: v["multipass"].as_bool().unwrap_or(false),
            probe: v["probe"].as_array().map(|a| [0, 1, 2].map(|i| a[i].as_u64().unwrap())),
            broken: v["broken"] == true,
        }
    }
}

impl ScriptedConfig {
    fn emit(
        &self,
        content: &str,
        rule_index: usize,
        exclusion_check: &ExclusionCheck<'_>,
        excluded_matches: &mut AHashSet<String>,
        match_emitter: &mut dyn MatchEmitter,
    ) {
        let all = [(0, content.len())];
        let spans: &[(usize, usize)] = if self.whole {
            if content.is_empty() {
                &[]
            } else {
                &all
            }
        } else {
            self.spans.get(content).map(|x| x.as_slice()).unwrap_or(&[])
        };
        for (start, end) in spans {
            if exclusion_check.is_excluded(rule_index) {
                excluded_matches.insert(content[*start..*end].to_string());
            } else {
                match_emitter.emit(StringMatch { start: *start, end: *end });
            }
        }
    }
}

/// What the library handed to the probes of one scanner.
#[derive(Default)]
pub struct Log {
    pub rules: usize,
    pub made: Vec<Value>,
    pub calls: Vec<Value>,
    pub excluded: Vec<Value>,
}

thread_local! {
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}

pub fn log<T>(f: impl FnOnce(&mut Log) -> T) -> T {
    LOG.with(|l| f(&mut l.borrow_mut()))
}

fn labels_json(l: &Labels) -> Value {
    let pairs = serde_json::to_value(l).unwrap();
    let one = |p: &Value| json!([conv::cps(p[0].as_str().unwrap()), conv::cps(p[1].as_str().unwrap())]);
    pairs.as_array().unwrap().iter().map(one).collect()
}

/// A rule that records every call. `used`: the rules that used the shared data before.
pub struct Probe<const G: usize, const C: usize, const S: usize> {
    cfg: ScriptedConfig,
    rule_index: usize,
}
pub struct ProbeData<const G: usize> {
    labels: Value,
    used: Vec<usize>,
}
pub struct ProbeConfig<const C: usize>(Vec<usize>);
pub struct ProbeCache<const S: usize>(Vec<usize>);

impl<const G: usize, const C: usize, const S: usize> CompiledRule for Probe<G, C, S> {
    type GroupData = ProbeData<G>;
    type GroupConfig = ProbeConfig<C>;
    type RuleScanCache = ProbeCache<S>;
    fn create_group_data(labels: &Labels) -> ProbeData<G> {
        ProbeData { labels: labels_json(labels), used: vec![] }
    }
    fn create_group_config() -> ProbeConfig<C> {
        ProbeConfig(vec![])
    }
    fn create_rule_scan_cache() -> ProbeCache<S> {
        ProbeCache(vec![])
    }
    fn get_match_action(&self) -> &MatchAction {
        &self.cfg.action
    }
    fn get_scope(&self) -> &Scope {
        &self.cfg.scope
    }
    fn get_string_matches(
        &self,
        content: &str,
        path: &Path,
        _regex_caches: &mut RegexCaches,
        group_data: &mut ProbeData<G>,
        group_config: &ProbeConfig<C>,
        rule_scan_cache: &mut ProbeCache<S>,
        exclusion_check: &ExclusionCheck<'_>,
        excluded_matches: &mut AHashSet<String>,
        match_emitter: &mut dyn MatchEmitter,
        _true_positive_rule_idx: &[usize],
        should_kws_match_event_paths: bool,
    ) {
        log(|l| {
            let excluded: Vec<usize> = (0..l.rules).filter(|r| exclusion_check.is_excluded(*r)).collect();
            l.calls.push(json!({"r": self.rule_index, "s": conv::cps(content), "p": conv::path_json(path), "ex": excluded,
                "kw": should_kws_match_event_paths, "labels": group_data.labels, "gd": group_data.used,
                "gc": group_config.0, "sc": rule_scan_cache.0}));
        });
        group_data.used.push(self.rule_index);
        rule_scan_cache.0.push(self.rule_index);
        self.cfg.emit(content, self.rule_index, exclusion_check, excluded_matches, match_emitter);
    }
    fn should_exclude_multipass_v0(&self) -> bool {
        self.cfg.multipass
    }
    fn on_excluded_match_multipass_v0(&self) {
        log(|l| l.excluded.push(json!(self.rule_index)));
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
        None
    }
    fn get_internal_match_validation_type(&self) -> Option<&InternalMatchValidationType> {
        None
    }
    fn process_scanner_config(&self, group_config: &mut ProbeConfig<C>) {
        group_config.0.push(self.rule_index);
    }
}

impl RuleConfig for ScriptedConfig {
    fn convert_to_compiled_rule(
        &self,
        rule_index: usize,
        label: Labels,
    ) -> Result<Box<dyn CompiledRuleDyn>, CreateScannerError> {
        if self.broken {
            let none = MatchAction::PartialRedact { direction: PartialRedactDirection::FirstCharacters, character_count: 0 };
            return RegexRuleConfig::new("a").match_action(none).build().convert_to_compiled_rule(rule_index, label);
        }
        if let Some(t) = self.probe {
            log(|l| l.made.push(json!([rule_index, labels_json(&label)])));
            let cfg = self.clone();
            return Ok(match t {
                [0, 0, 0] => Box::new(Probe::<0, 0, 0> { cfg, rule_index }),
                [0, 0, 1] => Box::new(Probe::<0, 0, 1> { cfg, rule_index }),
                [0, 1, 0] => Box::new(Probe::<0, 1, 0> { cfg, rule_index }),
                [0, 1, 1] => Box::new(Probe::<0, 1, 1> { cfg, rule_index }),
                [1, 0, 0] => Box::new(Probe::<1, 0, 0> { cfg, rule_index }),
                [1, 0, 1] => Box::new(Probe::<1, 0, 1> { cfg, rule_index }),
                [1, 1, 0] => Box::new(Probe::<1, 1, 0> { cfg, rule_index }),
                _ => Box::new(Probe::<1, 1, 1> { cfg, rule_index }),
            });
        }
        Ok(Box::new(ScriptedRule { cfg: self.clone(), rule_index, excluded: metrics::counter!("script.excluded", label) }))
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
        None
    }
}

pub struct ScriptedRule {
    cfg: ScriptedConfig,
    rule_index: usize,
    excluded: metrics::Counter,
}

pub struct Group;

impl CompiledRule for ScriptedRule {
    type GroupData = Group;
    type GroupConfig = Group;
    type RuleScanCache = Group;
    fn create_group_data(_: &Labels) -> Group {
        Group
    }
    fn create_group_config() -> Group {
        Group
    }
    fn create_rule_scan_cache() -> Group {
        Group
    }
    fn get_match_action(&self) -> &MatchAction {
        &self.cfg.action
    }
    fn get_scope(&self) -> &Scope {
        &self.cfg.scope
    }
    fn get_string_matches(
        &self,
        content: &str,
        _path: &Path,
        _regex_caches: &mut RegexCaches,
        _group_data: &mut Group,
        _group_config: &Group,
        _rule_scan_cache: &mut Group,
        exclusion_check: &ExclusionCheck<'_>,
        excluded_matches: &mut AHashSet<String>,
        match_emitter: &mut dyn MatchEmitter,
        _true_positive_rule_idx: &[usize],
        _should_kws_match_event_paths: bool,
    ) {
        self.cfg.emit(content, self.rule_index, exclusion_check, excluded_matches, match_emitter);
    }
    fn should_exclude_multipass_v0(&self) -> bool {
        self.cfg.multipass
    }
    fn on_excluded_match_multipass_v0(&self) {
        self.excluded.increment(1);
    }
    fn get_match_validation_type(&self) -> Option<&MatchValidationType> {
        None
    }
    fn get_internal_match_validation_type(&self) -> Option<&InternalMatchValidationType> {
        None
    }
    fn process_scanner_config(&self, _group_config: &mut Group) {}
}
