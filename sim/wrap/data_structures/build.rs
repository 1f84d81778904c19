fn main() {
    println!("cargo:rerun-if-changed=/repo/schemas/witnet/witnet.proto");
    println!("cargo:rerun-if-changed=build.rs");
    exonum_build::protobuf_generate("/repo/schemas/witnet", ["/repo/schemas/witnet"], "witnet_proto_mod.rs");
}
