//! Statistical comparison with a rigorous bound.

/// Threshold on N * KL: a single comparison of a correct implementation exceeds it with probability < 2 e^-36.
pub const THRESHOLD: f64 = 36.0;

fn kl(x: f64, p: f64) -> f64 {
    let mut s = 0.0;
    if x > 0.0 {
        s += x * (x / p).ln();
    }
    if x < 1.0 {
        s += (1.0 - x) * ((1.0 - x) / (1.0 - p)).ln();
    }
    s
}

/// Is `k` of `n` compatible with probability `p` (known up to a relative/absolute rounding error)?
/// Uses the Chernoff bound P(X/n beyond x) <= exp(-n KL(x || p)), valid for every n and p.
pub fn binom_ok(k: u64, n: u64, p: f64) -> bool {
    let x = k as f64 / n as f64;
    let eps = 1e-9;
    // Move p towards the observation by the rounding allowance.
    let p = if x > p { (p * (1.0 + eps) + 1e-15).min(x) } else { (p * (1.0 - eps) - 1e-15).max(x) };
    if (x - p).abs() < 1e-15 {
        return true;
    }
    if p <= 0.0 {
        return k == 0;
    }
    if p >= 1.0 {
        return k == n;
    }
    n as f64 * kl(x, p) < THRESHOLD
}

/// Compares observed counts with a law, bin by bin and cumulatively.
pub fn compare(counts: &[u64], probs: &[f64], what: &str) -> Result<(), String> {
    let n: u64 = counts.iter().sum();
    let total: f64 = probs.iter().sum();
    if (total - 1.0).abs() > 1e-9 {
        return Err(format!("harness error: law for {what} sums to {total}"));
    }
    for (i, (&c, &p)) in counts.iter().zip(probs).enumerate() {
        if !binom_ok(c, n, p) {
            return Err(format!(
                "{what}: outcome {i} occurred {c} of {n} times ({:.5}), expected probability {p:.5}",
                c as f64 / n as f64
            ));
        }
    }
    let (mut c, mut p) = (0, 0.0);
    for i in 0..counts.len() {
        c += counts[i];
        p += probs[i];
        if !binom_ok(c, n, p.min(1.0)) {
            return Err(format!(
                "{what}: outcomes 0..={i} occurred {c} of {n} times ({:.5}), expected probability {p:.5}",
                c as f64 / n as f64
            ));
        }
    }
    Ok(())
}
