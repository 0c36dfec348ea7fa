----------------------------- MODULE MC_Content -----------------------------
(* What messages contain: every small body over the pieces that mean         *)
(* something to the protocol, bodies whose special pieces fall on every      *)
(* position of the transmission units, texts that try to inject lines, the   *)
(* address headers, and attachments of every kind, name and size.            *)
EXTENDS Catalogue, MessageFormat

\* Pieces: s as text, b as bytes
Piece(s, b) == [s |-> s, b |-> b]
Pieces == {Piece(".", <<46>>), Piece("\r\n", <<13, 10>>), Piece("\n", <<10>>), Piece("\r", <<13>>), Piece("a", <<97>>),
           Piece("\r\n.\r\n", <<13, 10, 46, 13, 10>>), Piece("--", <<45, 45>>), Piece("QUIT", <<81, 85, 73, 84>>)}
RECURSIVE Text(_)
Text(ps) == IF ps = <<>> THEN "" ELSE Head(ps).s \o Text(Tail(ps))
Bytes(ps) == FlatSeq([i \in 1..Len(ps) |-> ps[i].b])
Letters == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>

Hosts3 == <<HostWith("h3", FALSE, <<>>, <<>>)>>
HostsFor(kind) == CASE kind = "plain" -> Hosts3 [] kind = "opp" -> <<H1(PlainLogin)>> [] OTHER -> <<H2(PlainLogin)>>
ContentPlan(id, kind, msgs, batch, wire) ==
  [id |-> id, if |-> "c", faults |-> 0, fd0 |-> FALSE, short |-> 0, wire |-> wire, hosts |-> HostsFor(kind), msgs |-> msgs,
   ops |-> <<New("A", kind, HostsFor(kind)[1].name, 25), Set("A", "batch", batch)>> \o [i \in 1..Len(msgs) |-> Send("A", msgs[i].id)]]
Opening == Plain1("m0")
Closing == Html1("mz")
SeqOfSet(S) == SetToSeq(S)

----------------------------------------------------------------------------
\* Bodies made of pieces
BodyMsg(id, kind, ps) == [Message(id, kind, Anna, <<Bob>>, <<>>, <<>>, "Subject of " \o id, Text(ps), <<>>) EXCEPT !.kind = kind] @@ [bytes |-> Bytes(ps)]
BodyMsgs(prefix, kind) == LET s == SeqOfSet(Pieces) IN [i \in 1..Len(s) |-> BodyMsg("m" \o Letters[i], kind, prefix \o <<s[i]>>)]
Plainly(m) == m @@ [bytes |-> <<>>]
BodyInit ==
  \E n \in 0..(IF Thorough THEN 4 ELSE 3) : \E prefix \in [1..n -> Pieces] : \E kind \in {"plain", "html"} :
    (IF n < 3 THEN TRUE ELSE (kind = "plain") = (prefix[1].s \in {".", "\r\n", "a", "\n"})) /\
    InitWith(ContentPlan("body of pieces", "plain", <<Plainly(Opening)>> \o BodyMsgs(prefix, kind) \o <<Plainly(Closing)>>, TRUE, TRUE))
FormatHolds == pc = 1 /\ ph = "op" => \A i \in 1..Len(plan.msgs) : Faithful(<<115, 101, 112>>, plan.msgs[i].bytes)

\* Bodies of every length around the size of the transmission units, with a special end
Tails == {"", ".", "..", "\r\n.", "\r\n..\r\n.", "\r\n.\r\n", "\r", "\n", "\r\n", "\r\n.\r\nMAIL FROM:<a@b.cd>\r\n.\r\nend", "\r\n\r\n", ".\r\n"}
LongMsg(id, kind, pieces, atts) == [Message(id, kind, Anna, <<Bob>>, <<>>, <<>>, "Subject of " \o id, pieces, atts) EXCEPT !.long = TRUE]
Ranges == IF Thorough THEN {x * 16 : x \in 0..140} ELSE {x * 16 : x \in 22..33} \cup {x * 16 : x \in 58..65} \cup {0, 16, 1520, 2032, 4080, 9984, 65520}
LengthInit ==
  \E from \in Ranges, t \in Tails, kind \in {"plain", "opp"} :
    (kind = "plain" \/ t \in {"", "\r\n.", "\r\n.\r\n"}) /\ (from < 60000 \/ t \in {"", "\r\n."}) /\
    InitWith(ContentPlan("body of some length", kind,
      <<Opening>> \o [i \in 1..16 |-> LongMsg("m" \o Letters[i], "plain", <<[n |-> from + i - 1, s |-> "x"], t>>, <<>>)] \o <<Closing>>, TRUE, FALSE))
Lines == {"y.\r\n", ".\r\n", "..\r\n", ".x\r\n", "\r\n", "\n", "\r", ".", "--\r\n", "-- \r\n"}
RepeatInit ==
  \E l \in Lines, from \in {1, 17, 33, 49, 65, 113, 125, 253, 257, 509, 1000} :
    InitWith(ContentPlan("body of repeated lines", "plain",
      <<Opening>> \o [i \in 1..16 |-> LongMsg("m" \o Letters[i], "html", <<[n |-> from + i - 1, s |-> l]>>, <<>>)] \o <<Closing>>, TRUE, FALSE))
\* Text that looks like the framing of the message
Framings == {"--sep", "--sep--", "\r\n--sep\r\n", "\r\n--sep--\r\n", "\r\n--sep0\r\n--sep1\r\n--sep\r\n", "Content-Type: text/html\r\n\r\nx", "boundary=sep", "\r\n--sep\r\nContent-Type: text/plain\r\n\r\nanother part",
             "multipart", "From: a@b.cd\r\n\r\n", "\r\n--sep-\r\n", "\r\n--se", "se", "p--sep"}
SomeFile == <<Attachment("one.pdf", "application/pdf", "one.pdf", "", "ramp", 700)>>
FramingInit ==
  \E f \in Framings, g \in Framings \cup {""}, kind \in {"plain", "opp"} :
    (kind = "plain" \/ g = "") /\
    InitWith(ContentPlan("body like a frame", kind,
      <<Opening, LongMsg("ma", "plain", <<f, g>>, <<>>), LongMsg("mb", "html", <<"text ", f, g>>, SomeFile), LongMsg("mc", "plain", <<f, "\r\n", g>>, SomeFile), Closing>>, TRUE, FALSE))
\* Any byte
ByteInit ==
  \E from \in {x * 16 : x \in 0..15} :
    InitWith(ContentPlan("any byte", "plain",
      <<Opening>> \o [i \in 1..16 |-> LongMsg("m" \o Letters[i], "plain", << <<IF from + i = 1 THEN 65 ELSE from + i - 1>>, "middle ", <<IF from + i = 1 THEN 65 ELSE from + i - 1>> >>, <<>>)] \o <<Closing>>, TRUE, FALSE))

----------------------------------------------------------------------------
\* Text that tries to bring lines of its own, wherever the caller may put text
Evil == {"\r\n", "\n", "\r", "Bcc: x@evil.example", "\r\n.\r\n", "RCPT TO:<evil@evil.example>", "a", "\"", " ", "\r\n\r\n", "--sep", ">", ";", "\r\n "}
Inject(id, x, att) ==
  LET n == "name " \o x
      base == Message(id, "plain", Anna, <<Bob, Carl>>, <<Dora>>, <<Egon>>, "Subject of " \o id, "Body text of message " \o id, att)
  IN << [base EXCEPT !.id = id \o "1", !.subj = x],
        [base EXCEPT !.id = id \o "2", !.from = [a |-> "anna@example.com", d |-> n, seen |-> n]],
        [base EXCEPT !.id = id \o "3", !.to = <<[a |-> "bob@example.net", d |-> n, seen |-> n], Carl>>],
        [base EXCEPT !.id = id \o "4", !.cc = <<Dora, [a |-> "bob@example.net", d |-> n, seen |-> n]>>],
        [base EXCEPT !.id = id \o "5", !.bcc = <<[a |-> "bob@example.net", d |-> n, seen |-> n]>>],
        [base EXCEPT !.id = id \o "6", !.att = <<Attachment("one.pdf", "application/pdf", n, "", "ramp", 70)>>],
        [base EXCEPT !.id = id \o "7", !.att = <<Attachment("one.pdf", "application/pdf", "f.pdf", n, "ramp", 70), Attachment("two.pdf", "application/pdf", n, n, "ramp", 71)>>],
        [base EXCEPT !.id = id \o "8", !.subj = "s" \o x \o "s", !.from = [a |-> "anna@example.com", d |-> x, seen |-> n], !.cc = <<>>, !.bcc = <<>>] >>
InjectInit ==
  \E n \in 1..(IF Thorough THEN 3 ELSE 2) : \E xs \in [1..n -> Evil], kind \in {"plain", "forced"} :
    LET x == FoldLeft(LAMBDA a, b : a \o b, "", xs) IN
    (IF kind = "plain" THEN TRUE ELSE n = 1) /\
    InitWith(ContentPlan("injected text", kind, <<Opening>> \o Inject("m", x, <<>>) \o <<Closing>>, TRUE, FALSE))
\* the same when the server rejects the first notations of the sender
RejectInit ==
  \E x \in Evil \cup {"\r\nRCPT TO:<evil@evil.example>", "a\r\nDATA\r\n", "> SIZE=1", "\nQUIT\n"} : \E k \in {1, 2, 8} :
    InitWith([ContentPlan("injected text, sender notations refused", "plain", <<Inject("m", x, <<>>)[k], Closing>>, FALSE, FALSE) EXCEPT !.faults = 2])
RejectMenu(p, st, n, i) == IF st = "MAIL" /\ n = 1 /\ p.faults = 2 THEN {Code(501)} ELSE {}

----------------------------------------------------------------------------
\* Headers: display names and subjects that the receiver has to see exactly
Named(t, seen) == [t |-> t, seen |-> seen]
Names == {Named("", ""), Named("N", "N"), Named("O'Neil", "O'Neil"), Named("Dr. Who (the)", "Dr. Who (the)"), Named("a  b", "a  b"), Named("x:y=z", "x:y=z"),
          Named("semi; colon", "semi; colon"), Named("J\"J\" M", "J\"J\" M"), Named("back\\slash", "back\\slash"), Named("a@b.cd", "a@b.cd"),
          Named("To: x", "To: x"), Named("0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
                "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"), Named(".dot", ".dot"), Named("100% & $5 #1", "100% & $5 #1"),
          Named("bob@example.net", "bob@example.net"), Named("BOB@EXAMPLE.NET", "BOB@EXAMPLE.NET"), Named("Fran@example.org", "Fran@example.org"), Named("bob", "bob"),
          Named("undefined", "undefined"), Named("0", "0"), Named("NULL", "NULL")}
Subjects == Names \cup {Named("Re: Fwd: =?utf-8?q?x?=", "Re: Fwd: =?utf-8?q?x?="), Named("<html> & \"quotes\"", "<html> & \"quotes\""), Named("a, b, c", "a, b, c"),
          Named("Bcc: someone@example.com", "Bcc: someone@example.com"), Named(" with spaces  around ", " with spaces  around ")}
HdrMsg(id, kind, a, b, s) ==
  [Message(id, kind, [a |-> "anna@example.com", d |-> a.t, seen |-> a.seen],
     <<[a |-> "bob@example.net", d |-> b.t, seen |-> b.seen], Carl>>, <<[a |-> "dora@example.org", d |-> a.t, seen |-> a.seen], [a |-> "fran@example.org", d |-> b.t, seen |-> b.seen]>>,
     <<Egon>>, s.t, "Body text of message " \o id, <<>>) EXCEPT !.subjseen = s.seen]
HeaderInit ==
  \E a \in Names : \E batch \in BOOLEAN : LET ns == SeqOfSet(Names) IN
    InitWith(ContentPlan("names", "plain", <<Opening>> \o [i \in 1..Len(ns) |-> HdrMsg("m" \o Letters[i], IF i % 2 = 0 THEN "html" ELSE "plain", a, ns[i], Named("s", "s"))], batch, FALSE))
OneFile(id, file, mime, name, cid, mode, len) == [Message(id, "plain", Anna, <<Bob>>, <<>>, <<>>, "Subject of " \o id, "Body text of message " \o id,
      <<Attachment(file, mime, name, cid, mode, len)>>) EXCEPT !.kind = IF cid = "" THEN "plain" ELSE "html"]
\* text outside ASCII
Accent == <<"Andr", <<195, 169>>>>
UtfInit ==
  \E kind \in {"plain", "opp"} :
    InitWith(ContentPlan("accents", kind, <<Opening, HdrMsg("ma", "plain", Named(Accent, "Andr%c3%a9"), Named(Accent, "Andr%c3%a9"), Named(<<Accent, " ", <<240, 159, 152, 128>>>>, "Andr%c3%a9 %f0%9f%98%80")),
        [OneFile("mb", "x.txt", "text/plain", Accent, "", "ramp", 99) EXCEPT !.att[1].nameseen = "Andr%c3%a9"]>>, TRUE, FALSE))
SubjectInit ==
  \/ \E s \in Subjects, kind \in {"plain", "opp", "forced"} :
       InitWith(ContentPlan("subject", kind, <<Opening, HdrMsg("ma", "plain", Named("A", "A"), Named("B", "B"), s), HdrMsg("mb", "html", Named("", ""), Named("", ""), s), Closing>>, TRUE, FALSE))
  \/ \E n \in {200, 400, 499, 500, 501, 502, 503, 504, 505, 511, 512, 513, 900, 998, 1000, 1022, 1023, 1024, 1025, 2000, 4096, 10000} :
       InitWith(ContentPlan("long subject", "plain", <<Opening, [HdrMsg("ma", "plain", Named("A", "A"), Named("B", "B"), Named("", "")) EXCEPT !.subj = [n |-> n, s |-> "z"], !.subjseen = "="], Closing>>, TRUE, FALSE))

----------------------------------------------------------------------------
\* Attachments.  The media types: extension (three spellings), type
MediaTypes ==
  {<<"png", "PNG", "PnG", "image/png">>,
   <<"jpeg", "JPEG", "JpEg", "image/jpeg">>,
   <<"jpg", "JPG", "JpG", "image/jpeg">>,
   <<"jpe", "JPE", "JpE", "image/jpeg">>,
   <<"gif", "GIF", "GiF", "image/gif">>,
   <<"tiff", "TIFF", "TiFf", "image/tiff">>,
   <<"tif", "TIF", "TiF", "image/tiff">>,
   <<"ico", "ICO", "IcO", "image/x-icon">>,
   <<"xml", "XML", "XmL", "application/xml">>,
   <<"xsl", "XSL", "XsL", "application/xml">>,
   <<"xhtml", "XHTML", "XhTmL", "application/xhtml+xml">>,
   <<"xht", "XHT", "XhT", "application/xhtml+xml">>,
   <<"pdf", "PDF", "PdF", "application/pdf">>,
   <<"js", "JS", "Js", "application/javascript">>,
   <<"css", "CSS", "CsS", "text/css">>,
   <<"csv", "CSV", "CsV", "text/csv">>,
   <<"html", "HTML", "HtMl", "text/html">>,
   <<"htm", "HTM", "HtM", "text/html">>,
   <<"txt", "TXT", "TxT", "text/plain">>,
   <<"text", "TEXT", "TeXt", "text/plain">>,
   <<"conf", "CONF", "CoNf", "text/plain">>,
   <<"def", "DEF", "DeF", "text/plain">>,
   <<"list", "LIST", "LiSt", "text/plain">>,
   <<"log", "LOG", "LoG", "text/plain">>,
   <<"in", "IN", "In", "text/plain">>,
   <<"mpeg", "MPEG", "MpEg", "video/mpeg">>,
   <<"mpg", "MPG", "MpG", "video/mpeg">>,
   <<"mpe", "MPE", "MpE", "video/mpeg">>,
   <<"m1v", "M1V", "M1V", "video/mpeg">>,
   <<"m2v", "M2V", "M2V", "video/mpeg">>,
   <<"mp4", "MP4", "Mp4", "video/mp4">>,
   <<"mp4v", "MP4V", "Mp4v", "video/mp4">>,
   <<"mpg4", "MPG4", "MpG4", "video/mp4">>,
   <<"qt", "QT", "Qt", "video/quicktime">>,
   <<"mov", "MOV", "MoV", "video/quicktime">>,
   <<"wmv", "WMV", "WmV", "video/x-ms-wmv">>,
   <<"avi", "AVI", "AvI", "video/x-msvideo">>,
   <<"flv", "FLV", "FlV", "video/x-flv">>,
   <<"webm", "WEBM", "WeBm", "video/webm">>,
   <<"wav", "WAV", "WaV", "audio/wav">>,
   <<"mp3", "MP3", "Mp3", "audio/mpeg">>,
   <<"oga", "OGA", "OgA", "audio/ogg">>,
   <<"opus", "OPUS", "OpUs", "audio/opus">>,
   <<"aac", "AAC", "AaC", "audio/aac">>,
   <<"zip", "ZIP", "ZiP", "application/zip">>,
   <<"rar", "RAR", "RaR", "application/x-rar-compressed">>,
   <<"odt", "ODT", "OdT", "application/vnd.oasis.opendocument.text">>,
   <<"ods", "ODS", "OdS", "application/vnd.oasis.opendocument.spreadsheet">>,
   <<"odp", "ODP", "OdP", "application/vnd.oasis.opendocument.presentation">>,
   <<"odg", "ODG", "OdG", "application/vnd.oasis.opendocument.graphics">>,
   <<"xls", "XLS", "XlS", "application/vnd.ms-excel">>,
   <<"xlm", "XLM", "XlM", "application/vnd.ms-excel">>,
   <<"xla", "XLA", "XlA", "application/vnd.ms-excel">>,
   <<"xlc", "XLC", "XlC", "application/vnd.ms-excel">>,
   <<"xlt", "XLT", "XlT", "application/vnd.ms-excel">>,
   <<"xlw", "XLW", "XlW", "application/vnd.ms-excel">>,
   <<"xlam", "XLAM", "XlAm", "application/vnd.ms-excel.addin.macroenabled.12">>,
   <<"xlsb", "XLSB", "XlSb", "application/vnd.ms-excel.sheet.binary.macroenabled.12">>,
   <<"xlsm", "XLSM", "XlSm", "application/vnd.ms-excel.sheet.macroenabled.12">>,
   <<"xltm", "XLTM", "XlTm", "application/vnd.ms-excel.template.macroenabled.12">>,
   <<"xlsx", "XLSX", "XlSx", "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet">>,
   <<"xltx", "XLTX", "XlTx", "application/vnd.openxmlformats-officedocument.spreadsheetml.template">>,
   <<"ppt", "PPT", "PpT", "application/vnd.ms-powerpoint">>,
   <<"pps", "PPS", "PpS", "application/vnd.ms-powerpoint">>,
   <<"pot", "POT", "PoT", "application/vnd.ms-powerpoint">>,
   <<"ppam", "PPAM", "PpAm", "application/vnd.ms-powerpoint.addin.macroenabled.12">>,
   <<"pptm", "PPTM", "PpTm", "application/vnd.ms-powerpoint.presentation.macroenabled.12">>,
   <<"sldm", "SLDM", "SlDm", "application/vnd.ms-powerpoint.slide.macroenabled.12">>,
   <<"ppsm", "PPSM", "PpSm", "application/vnd.ms-powerpoint.slideshow.macroenabled.12">>,
   <<"potm", "POTM", "PoTm", "application/vnd.ms-powerpoint.template.macroenabled.12">>,
   <<"pptx", "PPTX", "PpTx", "application/vnd.openxmlformats-officedocument.presentationml.presentation">>,
   <<"sldx", "SLDX", "SlDx", "application/vnd.openxmlformats-officedocument.presentationml.slide">>,
   <<"ppsx", "PPSX", "PpSx", "application/vnd.openxmlformats-officedocument.presentationml.slideshow">>,
   <<"potx", "POTX", "PoTx", "application/vnd.openxmlformats-officedocument.presentationml.template">>,
   <<"doc", "DOC", "DoC", "application/msword">>,
   <<"dot", "DOT", "DoT", "application/msword">>,
   <<"docx", "DOCX", "DoCx", "application/vnd.openxmlformats-officedocument.wordprocessingml.document">>,
   <<"dotx", "DOTX", "DoTx", "application/vnd.openxmlformats-officedocument.wordprocessingml.template">>,
   <<"xul", "XUL", "XuL", "application/vnd.mozilla.xul+xml">>}
TypeInit ==
  \E t \in MediaTypes :
    InitWith(ContentPlan("type of ." \o t[1], "plain",
      <<OneFile("ma", "file." \o t[1], t[4], "file." \o t[1], "", "ramp", 50), OneFile("mb", "FILE.x." \o t[2], t[4], "another name", "cid1", "ramp", 51),
        OneFile("mc", "archive.tar." \o t[3], t[4], "x." \o t[3], "", "ramp", 52), OneFile("md", "a b.txt." \o t[1], t[4], "name.txt", "", "ramp", 53)>>, TRUE, FALSE))
Modes == {"ramp", "ff", "zero", "crlf", "text", "random"}
SizeInit ==
  \E from \in (IF Thorough THEN {x * 16 : x \in 0..140} \cup {32752, 65520, 131056} ELSE {x * 16 : x \in 0..16} \cup {400, 496, 512, 752, 1008, 4080, 16368}), mode \in Modes :
    (IF from <= 256 THEN TRUE ELSE mode \in {"ramp", "random", "crlf"}) /\
    InitWith(ContentPlan("size " \o mode, "plain",
      [i \in 1..16 |-> OneFile("m" \o Letters[i], "file.pdf", "application/pdf", "f" \o Letters[i], "", mode, from + i - 1)], TRUE, FALSE))
BigInit ==
  \E n \in {100000, 1000003} \cup (IF Thorough THEN {4000001} ELSE {}), kind \in {"plain", "forced"} :
    InitWith(ContentPlan("large", kind, <<OneFile("ma", "file.bin.pdf", "application/pdf", "f", "", "random", n), Closing>>, FALSE, FALSE))
FileNames == {Named("simple.pdf", "simple.pdf"), Named("with space.pdf", "with space.pdf"), Named("q\"uote\".pdf", "q\"uote\".pdf"), Named("back\\slash", "back\\slash"),
              Named("semi;colon=1", "semi;colon=1"), Named("'single'", "'single'"), Named("a/b\\c", "a/b\\c"), Named("end\\", "end\\"), Named("\"", "\""),
              Named("x@y", "x@y"), Named("<angle>", "<angle>"), Named("no extension", "no extension"), Named("filename=\"x\"", "filename=\"x\"")}
Cids == {"", "cid1", "image001.png@01D0", "x@y.z", "a b", "0"}
NameInit ==
  \E fn \in FileNames, c \in Cids, kind \in {"plain", "opp"} : \E g \in {FileNames, {}} :
    LET other == SeqOfSet(FileNames) IN
    (IF kind = "plain" THEN TRUE ELSE c = "cid1") /\
    InitWith(ContentPlan("names of files", kind,
     <<Opening, [Message("ma", "html", Anna, <<Bob>>, <<Carl>>, <<>>, "Subject", "Body of ma",
       <<[Attachment("one.pdf", "application/pdf", fn.t, c, "ramp", 100) EXCEPT !.nameseen = fn.seen]>>
       \o (IF g = {} THEN <<>> ELSE [i \in 1..Len(other) |-> [Attachment("o.png", "image/png", other[i].t, IF i % 2 = 0 THEN c ELSE "", "text", 100 + i) EXCEPT !.nameseen = other[i].seen]]))
       EXCEPT !.id = "ma"]>>, FALSE, FALSE))
\* several attachments, the same content more than once, none, between messages
CountInit ==
  \E n \in 0..6 \cup {12, 33}, m \in 0..3, batch \in BOOLEAN :
    LET files(k, l) == [i \in 1..k |-> Attachment("f.txt", "text/plain", "n" \o ToString(i), IF i % 3 = 0 THEN "c" \o ToString(i) ELSE "", "random", IF i % 2 = 0 THEN l ELSE l + i)]
        msg(id, k, l) == Message(id, "plain", Carl, <<Anna>>, <<Bob>>, <<Egon>>, "Subject of " \o id, "Body of " \o id, files(k, l))
    IN InitWith(ContentPlan("several", "plain", <<msg("ma", n, 40), msg("mb", m, 300), msg("mc", 1, 20)>>, batch, FALSE))

\* what cannot be read (nothing of that name, a directory), and files of the
\* system, which have no size
OddInit ==
  \E mode \in {"missing", "dir", "system"}, c \in {"", "cid1"}, kind \in {"plain", "opp"}, n \in 0..2, k \in {"plain", "html"} :
    LET other(i) == Attachment("f.txt", "text/plain", "n" \o ToString(i), IF i % 2 = 0 THEN "c" \o ToString(i) ELSE "", "random", 30 + i)
    IN InitWith(ContentPlan("odd files", kind,
         <<Opening, [Message("ma", "plain", Anna, <<Bob>>, <<>>, <<>>, "Subject of ma", "Body of ma",
           [i \in 1..n |-> other(i)] \o <<Attachment("odd.pdf", "application/pdf", "odd.pdf", c, mode, 0)>> \o [i \in 1..n |-> other(i + 10)]) EXCEPT !.kind = k], Closing>>, TRUE, FALSE))

\* a network that takes only a few bytes at a time
ShortInit ==
  \E n \in {1, 2, 7, 64, 511, 512, 513}, kind \in {"plain", "opp", "forced"}, batch \in BOOLEAN :
    InitWith([ContentPlan("partial sends", kind,
      <<Opening, LongMsg("ma", "plain", <<[n |-> 300, s |-> "line\r\n"], ".\r\nend">>, <<>>), OneFile("mb", "file.pdf", "application/pdf", "f", "", "random", 3000),
        Message("mc", "html", Carl, <<Anna, Bob, Dora>>, <<Fran>>, <<Egon>>, "Subject of mc", "Body of mc", <<>>), Closing>>, batch, FALSE) EXCEPT !.short = n])
SpecBodies == BodyInit /\ [][Next]_vars
SpecLengths == (LengthInit \/ RepeatInit \/ FramingInit \/ ByteInit) /\ [][Next]_vars
SpecInject == (InjectInit \/ RejectInit) /\ [][Next]_vars
SpecHeaders == (HeaderInit \/ UtfInit \/ SubjectInit) /\ [][Next]_vars
SpecFiles == (OddInit \/ ShortInit \/ TypeInit \/ SizeInit \/ BigInit \/ NameInit \/ CountInit) /\ [][Next]_vars
NoMenu(p, st, n, i) == {}
=============================================================================
