//! C18: the same specification holds in every build configuration (features, target features).
//!
//! One program per configuration; each runs the enumerations of the other checks, compiled against
//! kofft as that configuration builds it, with smaller bounds.
use kmc_engine::*;

#[allow(dead_code)]
#[path = "../../core/src/bin/c01.rs"]
mod c01;
#[allow(dead_code)]
#[path = "../../core/src/bin/c02.rs"]
mod c02;
#[allow(dead_code)]
#[path = "../../core/src/bin/c03.rs"]
mod c03;
#[cfg(feature = "full")]
#[allow(dead_code)]
#[path = "../../core/src/bin/c04.rs"]
mod c04;
#[cfg(feature = "full")]
#[allow(dead_code)]
#[path = "../../core/src/bin/c05.rs"]
mod c05;
#[allow(dead_code)]
#[path = "../../core/src/bin/c06.rs"]
mod c06;
#[cfg(feature = "full")]
#[allow(dead_code)]
#[path = "../../core/src/bin/c07.rs"]
mod c07;
#[cfg(feature = "full")]
#[allow(dead_code)]
#[path = "../../core/src/bin/c08.rs"]
mod c08;
#[cfg(feature = "full")]
#[allow(dead_code)]
#[path = "../../core/src/bin/c09.rs"]
mod c09;
#[allow(dead_code)]
#[path = "../../core/src/bin/c11.rs"]
mod c11;
#[cfg(feature = "full")]
#[allow(dead_code)]
#[path = "../../core/src/bin/c12.rs"]
mod c12;
#[cfg(feature = "full")]
#[allow(dead_code)]
#[path = "../../core/src/bin/c13.rs"]
mod c13;
#[cfg(feature = "full")]
#[allow(dead_code)]
#[path = "../../core/src/bin/c14.rs"]
mod c14;
#[cfg(all(feature = "full", feature = "std"))]
#[allow(dead_code)]
#[path = "../../core/src/bin/c16.rs"]
mod c16;
#[cfg(feature = "full")]
#[allow(dead_code)]
#[path = "../../core/src/bin/c17.rs"]
mod c17;
#[cfg(feature = "full")]
#[allow(dead_code)]
#[path = "../../core/src/bin/c21.rs"]
mod c21;
#[allow(dead_code)]
#[path = "../../core/src/bin/c24.rs"]
mod c24;
#[allow(dead_code)]
#[path = "../../core/src/bin/c25.rs"]
mod c25;
fn all() -> Vec<CheckDef> {
    vec![
        c01::DEF,
        c02::DEF,
        c03::DEF,
        #[cfg(feature = "full")]
        c04::DEF,
        #[cfg(feature = "full")]
        c05::DEF,
        c06::DEF,
        #[cfg(feature = "full")]
        c07::DEF,
        #[cfg(feature = "full")]
        c08::DEF,
        #[cfg(feature = "full")]
        c09::DEF,
        c11::DEF,
        #[cfg(feature = "full")]
        c12::DEF,
        #[cfg(feature = "full")]
        c13::DEF,
        #[cfg(feature = "full")]
        c14::DEF,
        #[cfg(all(feature = "full", feature = "std"))]
        c16::DEF,
        #[cfg(feature = "full")]
        c17::DEF,
        #[cfg(feature = "full")]
        c21::DEF,
        c24::DEF,
        c25::DEF,
    ]
}

/// Without std, lengths that are not powers of two are documented as unsupported by the FFTs.
#[cfg(not(feature = "std"))]
fn excuse(key: &str, msg: &str) -> bool {
    if !msg.contains("NonPowerOfTwoNoStd") {
        return false;
    }
    // Every length named by the case is a power of two: there is no excuse.
    let direct = ["C01/", "C03/", "C04/", "C06/", "C07/", "C08/", "C09/", "C17/hilbert", "C17/cepstrum", "C21/"];
    if !direct.iter().any(|d| key.contains(d)) {
        return true;
    }
    let mut lens = vec![];
    for part in key.split('/') {
        for p in ["n=", "window="] {
            if let Some(v) = part.strip_prefix(p) {
                let d: String = v.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(l) = d.parse::<usize>() {
                    lens.push(l);
                }
            }
        }
    }
    lens.iter().any(|l| !l.is_power_of_two()) || lens.is_empty()
}

pub const DEF: CheckDef = CheckDef {
    id: "C18",
    level: Level::Exploration,
    rule: "one case = (build configuration, check, case of that check): every configuration is compiled and runs the enumerations of C01-C09, C11-C14, C16, C17, C21, C24, C25",
    assumptions: &[
        "configurations that need another processor (NEON, SIMD128) cannot be run here",
        "without std, transforms whose length is not a power of two may refuse with NonPowerOfTwoNoStd (documented)",
    ],
    hang_s: 120,
    run,
};
fn run(eng: &Eng) {
    #[cfg(not(feature = "std"))]
    let _ = EXCUSE.set(excuse);
    let name = std::env::args().next().unwrap();
    let config = name.rsplit('/').next().unwrap().trim_start_matches("c18-").to_string();
    for d in all() {
        eng.set_prefix(&format!("{config}/{}/", d.id));
        let t = std::time::Instant::now();
        (d.run)(eng);
        if std::env::var("KMC_STAT").is_ok() {
            eprintln!("{config}/{}: {:.1} s", d.id, t.elapsed().as_secs_f64());
        }
    }
}
fn main() {
    main_with(&[DEF]);
}
