//! Written archives are structurally valid and schedule-independent.
use super::*;

pub fn run() {
    let mut spec = gen_archive(&GenCfg::DEFAULT, 8);
    if !spec.entries.is_empty() && chance(30) {
        let k = draw(spec.entries.len() as u32) as usize;
        oversize(&mut spec.entries[k]);
        probe("oversized_entry");
    }
    if chance(15) {
        spec.comment = Some("x".repeat(65530 + draw(12) as usize));
        probe("long_comment");
    }
    let fit = spec.entries.iter().all(fits) && spec.comment.as_ref().map(|c| c.len() <= 65535).unwrap_or(true);
    let spec = Rc::new(spec);
    let tok = chance(400);
    sample(|| describe(&spec));
    let cfg = IoCfg::gen_benign();
    let (r, ctl) = write_sim(spec.clone(), cfg, tok);
    if let Err(e) = r {
        ensure!(!fit, "write", "writing failed although the sink is healthy: {e}; {}", describe(&spec));
        probe("refused");
        return;
    }
    let bytes = sink_bytes(&ctl);
    let a = parse_or_violate(&bytes, false, u64::MAX, &describe(&spec));
    check_ref(&a, &spec.entries, spec.comment.as_deref());
    match spec.z64 {
        Z64::Force => ensure!(a.zip64, "structure", "ZIP64 was forced but no ZIP64 end record is there"),
        Z64::Never => {
            ensure!(!a.zip64, "structure", "ZIP64 end record although ZIP64 was disabled");
            let z = a.entries.iter().any(|e| e.extra.iter().chain(&e.lextra).any(|x| x.0 == 1));
            ensure!(!z, "structure", "ZIP64 extra field although ZIP64 was disabled");
        }
        Z64::Auto => {}
    }
    // How many empty sync blocks the Deflate encoder emits for a flush depends on the room
    // left in its buffer, hence on a sink that does not keep up. All else is determined.
    if cfg.pend > 0 && flushed_deflate(&spec) {
        return probe("flushed_deflate");
    }
    // The same calls on a perfect sink give the same bytes.
    let plain = must_write(&spec);
    if plain != bytes {
        let at = plain.iter().zip(&bytes).position(|(a, b)| a != b).unwrap_or(plain.len().min(bytes.len()));
        violation(
            "schedule-dependent",
            format!("output depends on the sink's schedule: differs at byte {at} ({} vs {} bytes); {}", plain.len(), bytes.len(), describe(&spec)),
        );
    }
}
