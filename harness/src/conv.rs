//! JSON <-> library values. Strings travel as arrays of code points so that the TLA+ side can
//! treat them as sequences of integers.
use dd_sds::*;
use serde_json::{json, Value};
use std::sync::Arc;

pub fn st(v: &Value) -> String {
    v.as_array()
        .expect("code point array")
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).expect("valid code point"))
        .collect()
}
pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
pub fn seg(v: &Value) -> PathSegment<'static> {
    if v[0] == "f" {
        PathSegment::Field(st(&v[1]).into())
    } else {
        PathSegment::Index(v[1][0].as_u64().unwrap() as usize)
    }
}
pub fn seg_json(s: &PathSegment) -> Value {
    match s {
        PathSegment::Field(f) => json!(["f", cps(f)]),
        PathSegment::Index(i) => json!(["i", [*i]]),
    }
}
pub fn path(v: &Value) -> Path<'static> {
    Path::from(v.as_array().unwrap().iter().map(seg).collect::<Vec<_>>())
}
pub fn path_json(p: &Path) -> Value {
    Value::Array(p.segments.iter().map(seg_json).collect())
}
pub fn usz(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("harness: not an unsigned integer: {v}")) as usize
}
pub fn action(v: &Value) -> MatchAction {
    match v["t"].as_str().unwrap() {
        "none" => MatchAction::None,
        "redact" => MatchAction::Redact { replacement: st(&v["r"]) },
        "hash" => MatchAction::Hash,
        "first" => MatchAction::PartialRedact {
            direction: PartialRedactDirection::FirstCharacters,
            character_count: usz(&v["n"]),
        },
        "last" => MatchAction::PartialRedact {
            direction: PartialRedactDirection::LastCharacters,
            character_count: usz(&v["n"]),
        },
        #[allow(deprecated)]
        "hash16" => MatchAction::Utf16Hash,
        x => panic!("harness: action {x}"),
    }
}
pub fn scope(v: &Value) -> Scope {
    let ps = |x: &Value| x.as_array().unwrap().iter().map(path).collect::<Vec<_>>();
    match v["t"].as_str().unwrap() {
        "all" => Scope::all(),
        "inc" => Scope::include_and_exclude(ps(&v["inc"]), ps(&v["exc"])),
        "exc" => Scope::exclude(ps(&v["exc"])),
        x => panic!("harness: scope {x}"),
    }
}
pub fn validator(s: &str) -> SecondaryValidator {
    match s {
        "luhn" => SecondaryValidator::LuhnChecksum,
        "chinese" => SecondaryValidator::ChineseIdChecksum,
        "github" => SecondaryValidator::GithubTokenChecksum,
        "nhs" => SecondaryValidator::NhsCheckDigit,
        "iban" => SecondaryValidator::IbanChecker,
        "nir" => SecondaryValidator::NirChecksum,
        "jwt" => SecondaryValidator::JwtExpirationChecker,
        x => panic!("harness: validator {x}"),
    }
}
pub fn labels(v: &Value) -> Labels {
    let pairs: Vec<(String, String)> = v
        .as_array()
        .map(|a| {
            a.iter()
                .map(|p| {
                    let t = |v: &Value| v.as_str().map(str::to_string).unwrap_or_else(|| st(v));
                    (t(&p[0]), t(&p[1]))
                })
                .collect()
        })
        .unwrap_or_default();
    Labels::new(&pairs)
}
/// `env` gives values for the placeholders of endpoints (ports of local servers).
pub fn regex_rule(v: &Value, env: &dyn Fn(&Value) -> Option<MatchValidationType>) -> RegexRuleConfig {
    let mut r = RegexRuleConfig::new(&st(&v["pat"])).match_action(action(&v["act"]));
    if v["scope"].is_object() {
        r = r.scope(scope(&v["scope"]));
    }
    if v["kw"].is_object() {
        let k = &v["kw"];
        let l = |x: &Value| x.as_array().unwrap().iter().map(st).collect::<Vec<_>>();
        r = r.proximity_keywords(ProximityKeywordsConfig {
            look_ahead_character_count: usz(&k["la"]),
            included_keywords: l(&k["inc"]),
            excluded_keywords: l(&k["exc"]),
        });
    }
    if let Some(val) = v["val"].as_str() {
        if !val.is_empty() {
            r = r.validator(validator(val));
        }
    }
    if v["labels"].is_array() {
        r = r.labels(labels(&v["labels"]));
    }
    if let Some(t) = env(&v["mv"]) {
        r = r.match_validation_type(t);
    }
    r
}
pub fn rules(v: &Value, env: &dyn Fn(&Value) -> Option<MatchValidationType>) -> Vec<Arc<dyn RuleConfig>> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|r| -> Arc<dyn RuleConfig> {
            if r["k"] == "script" {
                Arc::new(crate::scripted::ScriptedConfig::from_json(r))
            } else {
                regex_rule(r, env).build()
            }
        })
        .collect()
}
pub fn create_err(e: &CreateScannerError) -> String {
    match e {
        CreateScannerError::InvalidRegex(x) => format!("InvalidRegex:{x:?}"),
        CreateScannerError::InvalidKeywords(x) => {
            let s = format!("{x:?}");
            format!("InvalidKeywords:{}", s.split('(').next().unwrap())
        }
        CreateScannerError::InvalidMatchAction(_) => "InvalidMatchAction".to_string(),
        CreateScannerError::InvalidMatchValidator(_) => "InvalidMatchValidator".to_string(),
    }
}
pub fn status(s: &MatchStatus) -> Value {
    let t = format!("{s:?}");
    json!(t.split('(').next().unwrap())
}
pub fn match_json(m: &RuleMatch) -> Value {
    json!({
        "rule": m.rule_index,
        "path": path_json(&m.path),
        "rt": m.replacement_type.to_string(),
        "start": m.start_index,
        "end": m.end_index_exclusive,
        "shift": m.shift_offset,
        "val": m.match_value.as_ref().map(|s| json!([cps(s)])).unwrap_or(json!([])),
        "status": status(&m.match_status),
    })
}
