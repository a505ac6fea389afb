#type HashMap<PathChunk,PathNode<T>>=VxMap<PathChunk, PathNode<T>>
#type HashMap<&'astr,&'bstr>=VxMap<&'a str, &'b str>
#type HashMap<&'astr,&'astr>=VxMap<&'a str, &'a str>
#type HashMap<String,String>=VxMap<String, String>
#type Duration=VxDuration
#type CookieRs<'a>=VxCookieRs<'a>
#type CookieRs<'b>=VxCookieRs<'b>
#type ReadHalf<T>=VxStream<T>
#bound Eq=VxSame
#bound AsyncRead=VxAny
#bound Unpin=VxAny
#type BoxReader=VxReader
#type Metadata=VxMeta
#type Poll<Result<()>>=Result<(), VxErr>
#type Context=VxCtx
#type ReadBuf=VxBuf
#type AsyncReader<File>=AsyncReader<VxFile>
#type Box<dynError>=VxErr
#type fmt::Formatter<'_>=VxFmt
#type Formatter<'_>=VxFmt
#type fmt::Result=Result<(), VxFmtError>
#type std::string::String=String
#bound Read=VxSrc
#bound AsRef<[u8]>=VxBytes
