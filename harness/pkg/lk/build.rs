fn main() {
    for v in ["VERGEN_GIT_BRANCH", "VERGEN_GIT_DESCRIBE", "VERGEN_RUSTC_SEMVER"] {
        println!("cargo:rustc-env={v}=x");
    }
}
