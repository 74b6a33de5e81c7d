//! Runs the real compiler on the schemas of corpus/ which the selected features ask for.
use bp3d_protoc::generate_rust;

fn on(feature: &str) -> bool {
    std::env::var_os(format!("CARGO_FEATURE_{}", feature.to_uppercase())).is_some()
}

fn main() {
    println!("cargo::rerun-if-changed=corpus");
    let mut files = Vec::new();
    for f in ["uleq", "ubeq", "ileq", "ibeq", "ulet", "ubet", "ilet", "ibet", "views"] {
        if on(f) { files.push(f) }
    }
    if on("mix") { files.extend(["mixle", "mixbe"]) }
    if on("messages") { files.extend(["suble", "subbe"]) }
    generate_rust(|loader| {
        for f in &files {
            println!("schema {}", f);
            loader.load(format!("./corpus/{}.json5", f))?;
        }
        Ok(())
    }, |protoc| protoc.set_reads_messages(true).set_writes_messages(true));
    if on("messages") {
        generate_rust(|loader| {
            loader.import("./corpus/suble.json5", "crate::suble")?;
            loader.import("./corpus/subbe.json5", "crate::subbe")?;
            loader.load("./corpus/msgle.json5")?;
            loader.load("./corpus/msgbe.json5")?;
            Ok(())
        }, |protoc| protoc.set_reads_messages(true).set_writes_messages(true));
    }
}
