#![allow(clippy::all)]
#![allow(dead_code)]
mod cli;
mod ctx;
mod ftp;
mod gen_dng;
mod gen_files;
mod gen_files2;
mod gen_img;
mod p01;
mod p02;
mod p03;
mod p04;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p13;
mod p15;
mod p16;
mod p18;
mod p20;
mod p25;
mod p27;
mod p28;
mod gen_cr3;
mod refcrx;
mod refdev;
mod refdng;
mod refljpeg;
mod reftiff;
mod rng;
mod util;

use ctx::{Ctx, Tier};
use std::time::Duration;

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let prop = args.get(1).cloned().unwrap_or_default();
  if prop == "ftpd" {
    std::process::exit(ftp::ftpd_main(&args[2..]));
  }
  if prop == "worker" {
    ctx::install_hook();
    std::process::exit(p11::worker_main(&args[2..]));
  }
  let mode = args.get(2).cloned().unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()));
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let (tier, replay) = match mode.as_str() {
    "thorough" => (Tier::Thorough, None),
    "replay" => {
      let c = args.get(4).map(|s| u64::from_str_radix(s.trim_start_matches("0x"), 16).expect("case id")).expect("case id");
      (Tier::Quick, Some((args.get(3).cloned().expect("stage"), c)))
    }
    _ => (Tier::Quick, None),
  };
  let cap = Duration::from_secs(
    std::env::var("VERIF_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Thorough { 1500 } else { 240 }),
  );
  ctx::install_hook();
  let ctx = Ctx::new(&prop, tier, seed, cap, replay);
  let rc = match prop.as_str() {
    "C01" => p01::run(ctx),
    "C02" => p02::run(ctx),
    "C03" => p03::run(ctx),
    "C04" => p04::run04(ctx),
    "C05" => p04::run05(ctx),
    "C06" => p06::run(ctx),
    "C07" => p07::run(ctx),
    "C08" => p08::run(ctx),
    "C09" => p09::run(ctx),
    "C10" => p10::run(ctx),
    "C11" => p11::run11(ctx),
    "C12" => p11::run12(ctx),
    "C13" => p13::run13(ctx),
    "C14" => p13::run14(ctx),
    "C15" => p15::run15(ctx),
    "C16" => p16::run16(ctx),
    "C17" => p16::run17(ctx),
    "C18" => p18::run18(ctx),
    "C19" => p18::run19(ctx),
    "C20" => p20::run20(ctx),
    "C21" => p20::run21(ctx),
    "C22" => p20::run22(ctx),
    "C23" => p20::run23(ctx),
    "C24" => p20::run24(ctx),
    "C25" => p25::run25(ctx),
    "C26" => p25::run26(ctx),
    "C27" => p27::run(ctx),
    "C28" => p28::run(ctx),
    _ => {
      eprintln!("unknown property '{prop}'");
      2
    }
  };
  std::process::exit(rc);
}
