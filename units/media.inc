// the documented media types by lower-case extension
pub open spec fn media(e: Seq<char>) -> Seq<char> {
    if e == "css"@ { "text/css"@ } else
    if e == "csv"@ { "text/csv"@ } else
    if e == "html"@ || e == "htm"@ { "text/html"@ } else
    if e == "ics"@ { "text/calendar"@ } else
    if e == "js"@ || e == "mjs"@ { "text/javascript"@ } else
    if e == "txt"@ { "text/plain"@ } else
    if e == "abw"@ { "application/x-abiword"@ } else
    if e == "arc"@ { "application/x-freearc"@ } else
    if e == "azw"@ { "application/vnd.amazon.ebook"@ } else
    if e == "bin"@ { "application/octet-stream"@ } else
    if e == "bz"@ { "application/x-bzip"@ } else
    if e == "bz2"@ { "application/x-bzip2"@ } else
    if e == "csh"@ { "application/x-csh"@ } else
    if e == "doc"@ { "application/msword"@ } else
    if e == "docx"@ { "application/vnd.openxmlformats-officedocument.wordprocessingml.document"@ } else
    if e == "eot"@ { "application/vnd.ms-fontobject"@ } else
    if e == "epub"@ { "application/epub+zip"@ } else
    if e == "gz"@ { "application/gzip"@ } else
    if e == "java"@ { "application/java-archive"@ } else
    if e == "json"@ { "application/json"@ } else
    if e == "jsonld"@ { "application/ld+json"@ } else
    if e == "mpkg"@ { "application/vnd.apple.installer+xml"@ } else
    if e == "odp"@ { "application/vnd.oasis.opendocument.presentation"@ } else
    if e == "ods"@ { "application/vnd.oasis.opendocument.spreadsheet"@ } else
    if e == "odt"@ { "application/vnd.oasis.opendocument.text"@ } else
    if e == "ogx"@ { "application/ogg"@ } else
    if e == "pdf"@ { "application/pdf"@ } else
    if e == "php"@ { "application/x-httpd-php"@ } else
    if e == "ppt"@ { "application/vnd.ms-powerpoint"@ } else
    if e == "pptx"@ { "application/vnd.openxmlformats-officedocument.presentationml.presentation"@ } else
    if e == "rar"@ { "application/vnd.rar"@ } else
    if e == "rtf"@ { "application/rtf"@ } else
    if e == "sh"@ { "application/x-sh"@ } else
    if e == "swf"@ { "application/x-shockwave-flash"@ } else
    if e == "tar"@ { "application/x-tar"@ } else
    if e == "vsd"@ { "application/vnd.visio"@ } else
    if e == "xhtml"@ { "application/xhtml+xml"@ } else
    if e == "xls"@ { "application/vnd.ms-excel"@ } else
    if e == "xlsx"@ { "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"@ } else
    if e == "xml"@ { "application/xml"@ } else
    if e == "xul"@ { "application/vnd.mozilla.xul+xml"@ } else
    if e == "zip"@ { "application/zip"@ } else
    if e == "7z"@ { "application/x-7z-compressed"@ } else
    if e == "bmp"@ { "image/bmp"@ } else
    if e == "gif"@ { "image/gif"@ } else
    if e == "ico"@ { "image/vnd.microsoft.icon"@ } else
    if e == "jpeg"@ || e == "jpg"@ { "image/jpeg"@ } else
    if e == "png"@ { "image/png"@ } else
    if e == "svg"@ { "image/svg+xml"@ } else
    if e == "tif"@ || e == "tiff"@ { "image/tiff"@ } else
    if e == "webp"@ { "image/webp"@ } else
    if e == "aac"@ { "audio/aac"@ } else
    if e == "mid"@ { "audio/midi"@ } else
    if e == "midi"@ { "audio/x-midi"@ } else
    if e == "mp3"@ { "audio/mpeg"@ } else
    if e == "oga"@ { "audio/ogg"@ } else
    if e == "opus"@ { "audio/opus"@ } else
    if e == "wav"@ { "audio/wav"@ } else
    if e == "weba"@ { "audio/webm"@ } else
    if e == "avi"@ { "video/x-msvideo"@ } else
    if e == "mpeg"@ { "video/mpeg"@ } else
    if e == "ogv"@ { "video/ogg"@ } else
    if e == "ts"@ { "video/mp2t"@ } else
    if e == "webm"@ { "video/webm"@ } else
    if e == "otf"@ { "font/otf"@ } else
    if e == "ttf"@ { "font/ttf"@ } else
    if e == "woff"@ { "font/woff"@ } else
    if e == "woff2"@ { "font/woff2"@ } else
    { "text/plain"@ }
}
