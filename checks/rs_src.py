"""The Rust sources under check (shared by the proofs and the native search)."""
import os
TYPES = {"bool": (8, False)}
for _n in (8, 16, 32, 64):
    TYPES[f"u{_n}"] = (_n, False); TYPES[f"i{_n}"] = (_n, True)
def prelude(repo):
    """The macros and the helper trait, textually included from the working tree (nothing is dropped but the rest of the crate)."""
    lib = os.path.join(repo, "flatdata-rs", "lib", "src")
    out = ["#![allow(warnings)]"]
    for m in ("bytereader", "bytewriter"):
        out.append(f'#[macro_use] #[path="{lib}/{m}.rs"] mod {m};')
    out.append(f'#[path="{lib}/helper.rs"] pub mod helper;')
    return "\n".join(out) + "\n"
