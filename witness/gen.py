"""Writes the witness programs: one per claim.  Each line tagged `// HERE` is
where the expected error must be reported; a witness without one must compile."""
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "bin")
POS = {
    "body_image::BodyImage": "SS", "body_image::BodySink": "SS", "body_image::BodyReader<'static>": "SS",
    "body_image::Dialog": "SS", "body_image::Prolog": "SS", "body_image::Epilog": "SS", "body_image::ExplodedImage": "SS",
    "body_image::Tunables": "SS", "body_image::Tuner": "SS", "body_image::BodyError": "SS",
    "barc::Record": "SS", "barc::BarcFile": "SS", "barc::BarcReader": "SS", "barc::BarcError": "SS",
    "body_image_futio::AsyncBodyImage<bytes::Bytes>": "SS", "body_image_futio::AsyncBodyImage<UniBodyBuf>": "SS",
    "body_image_futio::DispatchBodyImage<bytes::Bytes>": "SS", "body_image_futio::PermitBodyImage<bytes::Bytes>": "SS",
    "body_image_futio::DispatchBodyImage<UniBodyBuf>": "SS", "body_image_futio::PermitBodyImage<UniBodyBuf>": "SS",
    "body_image_futio::SplitBodyImage<bytes::Bytes>": "SS", "body_image_futio::YieldBodyImage<bytes::Bytes>": "SS",
    "body_image_futio::AsyncBodySink<bytes::Bytes>": "SS", "body_image_futio::AsyncBodySink<UniBodyBuf>": "SS",
    "body_image_futio::DispatchBodySink<bytes::Bytes>": "SS", "body_image_futio::PermitBodySink<bytes::Bytes>": "SS",
    "body_image_futio::DispatchBodySink<UniBodyBuf>": "SS", "body_image_futio::PermitBodySink<UniBodyBuf>": "SS",
    "body_image_futio::RequestRecord<body_image_futio::AsyncBodyImage<bytes::Bytes>>": "SS",
    "body_image_futio::FutioTunables": "SS", "body_image_futio::FutioTuner": "SS", "body_image_futio::FutioError": "SS",
    "UniBodyBuf": "SS",
}
NEG = {
    "from_file_safe": ("E0133", "use body_image::BodyImage;\nfn main() {\n    let f = std::fs::File::open(\"x\").unwrap();\n    let _ = BodyImage::from_file(f, 1); // HERE\n}\n"),
    "from_read_slice_safe": ("E0133", "use body_image::{BodyImage, ExplodedImage};\nfn main() {\n    if let ExplodedImage::FsRead(rs) = BodyImage::empty().explode() {\n        let _ = BodyImage::from_read_slice(rs); // HERE\n    }\n}\n"),
    "image_parts": ("E0451", "use body_image::BodyImage;\nfn main() {\n    let _ = BodyImage { ..BodyImage::empty() }; // HERE\n}\n"),
    "sink_parts": ("E0451", "use body_image::BodySink;\nfn main() {\n    let _ = BodySink { ..BodySink::empty() }; // HERE\n}\n"),
    "tunables_parts": ("E0451", "use body_image::Tunables;\nfn main() {\n    let _ = Tunables { ..Tunables::new() }; // HERE\n}\n"),
    "tuner_parts": ("E0451", "use body_image::Tuner;\nfn main() {\n    let _ = Tuner { ..Tuner::new() }; // HERE\n}\n"),
    "futio_tunables_parts": ("E0451", "use body_image_futio::FutioTunables;\nfn main() {\n    let _ = FutioTunables { ..FutioTunables::new() }; // HERE\n}\n"),
    "futio_tuner_parts": ("E0451", "use body_image_futio::FutioTuner;\nfn main() {\n    let _ = FutioTuner { ..FutioTuner::new() }; // HERE\n}\n"),
    "writer_outlives": ("E0597", "use barc::BarcFile;\nfn main() {\n    let w = {\n        let b = BarcFile::new(\"x\");\n        b.writer().unwrap() // HERE\n    };\n    drop(w);\n}\n"),
    "archive_dropped": ("E0505", "use barc::BarcFile;\nfn main() {\n    let b = BarcFile::new(\"x\");\n    let mut w = b.writer().unwrap();\n    drop(b); // HERE\n    let _ = &mut w;\n    drop(w);\n}\n"),
    "writer_static": ("E0515", "use barc::{BarcFile, BarcWriter};\nfn make() -> BarcWriter<'static> {\n    let b = BarcFile::new(\"x\");\n    b.writer().unwrap() // HERE\n}\nfn main() {\n    drop(make());\n}\n"),
}


def main():
    os.makedirs(HERE, exist_ok=True)
    out = {}
    for f in os.listdir(HERE):
        os.remove(os.path.join(HERE, f))
    src = ["use body_image_futio::UniBodyBuf;", "#[allow(dead_code)] fn send<T: Send>() {}", "#[allow(dead_code)] fn sync<T: Sync>() {}", "fn main() {"]
    for t, k in POS.items():
        if k == "SS":
            src.append("    send::<%s>();" % t)
        src.append("    sync::<%s>();" % t)
    src.append("}")
    with open(os.path.join(HERE, "pos.rs"), "w") as fh:
        fh.write("\n".join(src) + "\n")
    for n, (code, s) in NEG.items():
        with open(os.path.join(HERE, n + ".rs"), "w") as fh:
            fh.write("// expect %s\n%s" % (code, s))


if __name__ == "__main__":
    main()
