use body_image_futio::UniBodyBuf;
#[allow(dead_code)] fn send<T: Send>() {}
#[allow(dead_code)] fn sync<T: Sync>() {}
fn main() {
    send::<body_image::BodyImage>();
    sync::<body_image::BodyImage>();
    send::<body_image::BodySink>();
    sync::<body_image::BodySink>();
    send::<body_image::BodyReader<'static>>();
    sync::<body_image::BodyReader<'static>>();
    send::<body_image::Dialog>();
    sync::<body_image::Dialog>();
    send::<body_image::Prolog>();
    sync::<body_image::Prolog>();
    send::<body_image::Epilog>();
    sync::<body_image::Epilog>();
    send::<body_image::ExplodedImage>();
    sync::<body_image::ExplodedImage>();
    send::<body_image::Tunables>();
    sync::<body_image::Tunables>();
    send::<body_image::Tuner>();
    sync::<body_image::Tuner>();
    send::<body_image::BodyError>();
    sync::<body_image::BodyError>();
    send::<barc::Record>();
    sync::<barc::Record>();
    send::<barc::BarcFile>();
    sync::<barc::BarcFile>();
    send::<barc::BarcReader>();
    sync::<barc::BarcReader>();
    send::<barc::BarcError>();
    sync::<barc::BarcError>();
    send::<body_image_futio::AsyncBodyImage<bytes::Bytes>>();
    sync::<body_image_futio::AsyncBodyImage<bytes::Bytes>>();
    send::<body_image_futio::AsyncBodyImage<UniBodyBuf>>();
    sync::<body_image_futio::AsyncBodyImage<UniBodyBuf>>();
    send::<body_image_futio::DispatchBodyImage<bytes::Bytes>>();
    sync::<body_image_futio::DispatchBodyImage<bytes::Bytes>>();
    send::<body_image_futio::PermitBodyImage<bytes::Bytes>>();
    sync::<body_image_futio::PermitBodyImage<bytes::Bytes>>();
    send::<body_image_futio::DispatchBodyImage<UniBodyBuf>>();
    sync::<body_image_futio::DispatchBodyImage<UniBodyBuf>>();
    send::<body_image_futio::PermitBodyImage<UniBodyBuf>>();
    sync::<body_image_futio::PermitBodyImage<UniBodyBuf>>();
    send::<body_image_futio::SplitBodyImage<bytes::Bytes>>();
    sync::<body_image_futio::SplitBodyImage<bytes::Bytes>>();
    send::<body_image_futio::YieldBodyImage<bytes::Bytes>>();
    sync::<body_image_futio::YieldBodyImage<bytes::Bytes>>();
    send::<body_image_futio::AsyncBodySink<bytes::Bytes>>();
    sync::<body_image_futio::AsyncBodySink<bytes::Bytes>>();
    send::<body_image_futio::AsyncBodySink<UniBodyBuf>>();
    sync::<body_image_futio::AsyncBodySink<UniBodyBuf>>();
    send::<body_image_futio::DispatchBodySink<bytes::Bytes>>();
    sync::<body_image_futio::DispatchBodySink<bytes::Bytes>>();
    send::<body_image_futio::PermitBodySink<bytes::Bytes>>();
    sync::<body_image_futio::PermitBodySink<bytes::Bytes>>();
    send::<body_image_futio::DispatchBodySink<UniBodyBuf>>();
    sync::<body_image_futio::DispatchBodySink<UniBodyBuf>>();
    send::<body_image_futio::PermitBodySink<UniBodyBuf>>();
    sync::<body_image_futio::PermitBodySink<UniBodyBuf>>();
    send::<body_image_futio::RequestRecord<body_image_futio::AsyncBodyImage<bytes::Bytes>>>();
    sync::<body_image_futio::RequestRecord<body_image_futio::AsyncBodyImage<bytes::Bytes>>>();
    send::<body_image_futio::FutioTunables>();
    sync::<body_image_futio::FutioTunables>();
    send::<body_image_futio::FutioTuner>();
    sync::<body_image_futio::FutioTuner>();
    send::<body_image_futio::FutioError>();
    sync::<body_image_futio::FutioError>();
    send::<UniBodyBuf>();
    sync::<UniBodyBuf>();
}
