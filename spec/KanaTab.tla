------------------------------ MODULE KanaTab --------------------------------
(* The kana known to the converter, one record per kana: r = unique romaji,   *)
(* h / k = hiragana and katakana, hep / kun = Hepburn and Kunrei romaji where *)
(* they differ from r ("" = none), var = further accepted spellings, vk = the *)
(* first of var is the Kunrei romaji, plain / dak / han = unique romaji of    *)
(* the unmarked, voiced and semi-voiced counterparts ("" = none). The model   *)
(* MCKana checks this table against the structure of written Japanese.        *)
Table == <<
  [r |-> "a", h |-> "あ", k |-> "ア", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "na", h |-> "な", k |-> "ナ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "ma", h |-> "ま", k |-> "マ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "ya", h |-> "や", k |-> "ヤ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "ra", h |-> "ら", k |-> "ラ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "wa", h |-> "わ", k |-> "ワ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "qwa", h |-> "くゎ", k |-> "クヮ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "swa", h |-> "すぁ", k |-> "スァ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "tsa", h |-> "つぁ", k |-> "ツァ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "nya", h |-> "にゃ", k |-> "ニャ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "fa", h |-> "ふぁ", k |-> "ファ", hep |-> "", kun |-> "", var |-> <<"fwa", "hwa">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "fya", h |-> "ふゃ", k |-> "フャ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "mya", h |-> "みゃ", k |-> "ミャ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "rya", h |-> "りゃ", k |-> "リャ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "i", h |-> "い", k |-> "イ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "ni", h |-> "に", k |-> "ニ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "mi", h |-> "み", k |-> "ミ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "ri", h |-> "り", k |-> "リ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "wyi", h |-> "ゐ", k |-> "ヰ", hep |-> "i", kun |-> "i", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "swi", h |-> "すぃ", k |-> "スィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "tsi", h |-> "つぃ", k |-> "ツィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "nyi", h |-> "にぃ", k |-> "ニィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "fi", h |-> "ふぃ", k |-> "フィ", hep |-> "", kun |-> "", var |-> <<"fyi", "fwi", "hwi">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "myi", h |-> "みぃ", k |-> "ミィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "ryi", h |-> "りぃ", k |-> "リィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "nu", h |-> "ぬ", k |-> "ヌ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "mu", h |-> "む", k |-> "ム", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "yu", h |-> "ゆ", k |-> "ユ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "ru", h |-> "る", k |-> "ル", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "swu", h |-> "すぅ", k |-> "スゥ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "nyu", h |-> "にゅ", k |-> "ニュ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "fwu", h |-> "ふぅ", k |-> "フゥ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "fyu", h |-> "ふゅ", k |-> "フュ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "myu", h |-> "みゅ", k |-> "ミュ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "ryu", h |-> "りゅ", k |-> "リュ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "e", h |-> "え", k |-> "エ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "ne", h |-> "ね", k |-> "ネ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "me", h |-> "め", k |-> "メ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "re", h |-> "れ", k |-> "レ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "wye", h |-> "ゑ", k |-> "ヱ", hep |-> "e", kun |-> "e", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "ye", h |-> "いぇ", k |-> "イェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "swe", h |-> "すぇ", k |-> "スェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "tse", h |-> "つぇ", k |-> "ツェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "nye", h |-> "にぇ", k |-> "ニェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "fe", h |-> "ふぇ", k |-> "フェ", hep |-> "", kun |-> "", var |-> <<"fye", "fwe", "hwe">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "mye", h |-> "みぇ", k |-> "ミェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "rye", h |-> "りぇ", k |-> "リェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "o", h |-> "お", k |-> "オ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "no", h |-> "の", k |-> "ノ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "mo", h |-> "も", k |-> "モ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "yo", h |-> "よ", k |-> "ヨ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "ro", h |-> "ろ", k |-> "ロ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "wo", h |-> "を", k |-> "ヲ", hep |-> "o", kun |-> "o", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "swo", h |-> "すぉ", k |-> "スォ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "tso", h |-> "つぉ", k |-> "ツォ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "nyo", h |-> "にょ", k |-> "ニョ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "fo", h |-> "ふぉ", k |-> "フォ", hep |-> "", kun |-> "", var |-> <<"fwo", "hwo">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "fyo", h |-> "ふょ", k |-> "フョ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "myo", h |-> "みょ", k |-> "ミョ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "ryo", h |-> "りょ", k |-> "リョ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "va", h |-> "ゔぁ", k |-> "ヴァ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "vo", h |-> "ゔぉ", k |-> "ヴォ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "vya", h |-> "ゔゃ", k |-> "ヴャ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "vyu", h |-> "ゔゅ", k |-> "ヴュ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "vyo", h |-> "ゔょ", k |-> "ヴョ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "la", h |-> "ぁ", k |-> "ァ", hep |-> "", kun |-> "", var |-> <<"xa">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "li", h |-> "ぃ", k |-> "ィ", hep |-> "", kun |-> "", var |-> <<"xi">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "lu", h |-> "ぅ", k |-> "ゥ", hep |-> "", kun |-> "", var |-> <<"xu">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "le", h |-> "ぇ", k |-> "ェ", hep |-> "", kun |-> "", var |-> <<"xe", "lye", "xye">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "lo", h |-> "ぉ", k |-> "ォ", hep |-> "", kun |-> "", var |-> <<"xo">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "lka", h |-> "ゕ", k |-> "ヵ", hep |-> "", kun |-> "", var |-> <<"xka">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "lke", h |-> "ゖ", k |-> "ヶ", hep |-> "", kun |-> "", var |-> <<"xke">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "lya", h |-> "ゃ", k |-> "ャ", hep |-> "", kun |-> "", var |-> <<"xya">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "lyu", h |-> "ゅ", k |-> "ュ", hep |-> "", kun |-> "", var |-> <<"xyu">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "lyo", h |-> "ょ", k |-> "ョ", hep |-> "", kun |-> "", var |-> <<"xyo">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "lwa", h |-> "ゎ", k |-> "ヮ", hep |-> "", kun |-> "", var |-> <<"xwa">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "ltu", h |-> "っ", k |-> "ッ", hep |-> "", kun |-> "", var |-> <<"xtu">>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "n", h |-> "ん", k |-> "ン", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "", han |-> ""],
  [r |-> "ka", h |-> "か", k |-> "カ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "ga", han |-> ""],
  [r |-> "ga", h |-> "が", k |-> "ガ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "ka", dak |-> "", han |-> ""],
  [r |-> "sa", h |-> "さ", k |-> "サ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "za", han |-> ""],
  [r |-> "za", h |-> "ざ", k |-> "ザ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "sa", dak |-> "", han |-> ""],
  [r |-> "ta", h |-> "た", k |-> "タ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "da", han |-> ""],
  [r |-> "da", h |-> "だ", k |-> "ダ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "ta", dak |-> "", han |-> ""],
  [r |-> "kya", h |-> "きゃ", k |-> "キャ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "gya", han |-> ""],
  [r |-> "gya", h |-> "ぎゃ", k |-> "ギャ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "kya", dak |-> "", han |-> ""],
  [r |-> "qa", h |-> "くぁ", k |-> "クァ", hep |-> "", kun |-> "", var |-> <<"kwa">>, vk |-> FALSE, plain |-> "", dak |-> "gwa", han |-> ""],
  [r |-> "gwa", h |-> "ぐぁ", k |-> "グァ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "qa", dak |-> "", han |-> ""],
  [r |-> "sha", h |-> "しゃ", k |-> "シャ", hep |-> "", kun |-> "", var |-> <<"sya">>, vk |-> TRUE, plain |-> "", dak |-> "ja", han |-> ""],
  [r |-> "ja", h |-> "じゃ", k |-> "ジャ", hep |-> "", kun |-> "", var |-> <<"zya", "jya">>, vk |-> TRUE, plain |-> "sha", dak |-> "", han |-> ""],
  [r |-> "cha", h |-> "ちゃ", k |-> "チャ", hep |-> "", kun |-> "", var |-> <<"tya">>, vk |-> TRUE, plain |-> "", dak |-> "dya", han |-> ""],
  [r |-> "dya", h |-> "ぢゃ", k |-> "ヂャ", hep |-> "ja", kun |-> "zya", var |-> <<>>, vk |-> FALSE, plain |-> "cha", dak |-> "", han |-> ""],
  [r |-> "tha", h |-> "てゃ", k |-> "テャ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "dha", han |-> ""],
  [r |-> "dha", h |-> "でゃ", k |-> "デャ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "tha", dak |-> "", han |-> ""],
  [r |-> "twa", h |-> "とぁ", k |-> "トァ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "dwa", han |-> ""],
  [r |-> "dwa", h |-> "どぁ", k |-> "ドァ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "twa", dak |-> "", han |-> ""],
  [r |-> "ki", h |-> "き", k |-> "キ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "gi", han |-> ""],
  [r |-> "gi", h |-> "ぎ", k |-> "ギ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "ki", dak |-> "", han |-> ""],
  [r |-> "shi", h |-> "し", k |-> "シ", hep |-> "", kun |-> "", var |-> <<"si">>, vk |-> TRUE, plain |-> "", dak |-> "ji", han |-> ""],
  [r |-> "ji", h |-> "じ", k |-> "ジ", hep |-> "", kun |-> "", var |-> <<"zi">>, vk |-> TRUE, plain |-> "shi", dak |-> "", han |-> ""],
  [r |-> "chi", h |-> "ち", k |-> "チ", hep |-> "", kun |-> "", var |-> <<"ti">>, vk |-> TRUE, plain |-> "", dak |-> "di", han |-> ""],
  [r |-> "di", h |-> "ぢ", k |-> "ヂ", hep |-> "ji", kun |-> "zi", var |-> <<>>, vk |-> FALSE, plain |-> "chi", dak |-> "", han |-> ""],
  [r |-> "wi", h |-> "うぃ", k |-> "ウィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "vi", han |-> ""],
  [r |-> "vi", h |-> "ゔぃ", k |-> "ヴィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "wi", dak |-> "", han |-> ""],
  [r |-> "qi", h |-> "くぃ", k |-> "クィ", hep |-> "", kun |-> "", var |-> <<"kwi", "qwi">>, vk |-> FALSE, plain |-> "", dak |-> "gwi", han |-> ""],
  [r |-> "gwi", h |-> "ぐぃ", k |-> "グィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "qi", dak |-> "", han |-> ""],
  [r |-> "kyi", h |-> "きぃ", k |-> "キィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "gyi", han |-> ""],
  [r |-> "gyi", h |-> "ぎぃ", k |-> "ギィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "kyi", dak |-> "", han |-> ""],
  [r |-> "syi", h |-> "しぃ", k |-> "シィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "jyi", han |-> ""],
  [r |-> "jyi", h |-> "じぃ", k |-> "ジィ", hep |-> "", kun |-> "", var |-> <<"zyi">>, vk |-> FALSE, plain |-> "syi", dak |-> "", han |-> ""],
  [r |-> "tyi", h |-> "ちぃ", k |-> "チィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "dyi", han |-> ""],
  [r |-> "dyi", h |-> "ぢぃ", k |-> "ヂィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "tyi", dak |-> "", han |-> ""],
  [r |-> "twi", h |-> "とぃ", k |-> "トィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "dwi", han |-> ""],
  [r |-> "dwi", h |-> "どぃ", k |-> "ドィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "twi", dak |-> "", han |-> ""],
  [r |-> "thi", h |-> "てぃ", k |-> "ティ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "dhi", han |-> ""],
  [r |-> "dhi", h |-> "でぃ", k |-> "ディ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "thi", dak |-> "", han |-> ""],
  [r |-> "u", h |-> "う", k |-> "ウ", hep |-> "", kun |-> "", var |-> <<"wu">>, vk |-> FALSE, plain |-> "", dak |-> "vu", han |-> ""],
  [r |-> "vu", h |-> "ゔ", k |-> "ヴ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "u", dak |-> "", han |-> ""],
  [r |-> "ku", h |-> "く", k |-> "ク", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "gu", han |-> ""],
  [r |-> "gu", h |-> "ぐ", k |-> "グ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "ku", dak |-> "", han |-> ""],
  [r |-> "su", h |-> "す", k |-> "ス", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "zu", han |-> ""],
  [r |-> "zu", h |-> "ず", k |-> "ズ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "su", dak |-> "", han |-> ""],
  [r |-> "tsu", h |-> "つ", k |-> "ツ", hep |-> "", kun |-> "", var |-> <<"tu">>, vk |-> TRUE, plain |-> "", dak |-> "du", han |-> ""],
  [r |-> "du", h |-> "づ", k |-> "ヅ", hep |-> "zu", kun |-> "zu", var |-> <<>>, vk |-> FALSE, plain |-> "tsu", dak |-> "", han |-> ""],
  [r |-> "kyu", h |-> "きゅ", k |-> "キュ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "gyu", han |-> ""],
  [r |-> "gyu", h |-> "ぎゅ", k |-> "ギュ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "kyu", dak |-> "", han |-> ""],
  [r |-> "qu", h |-> "くぅ", k |-> "クゥ", hep |-> "", kun |-> "", var |-> <<"kwu", "qwu">>, vk |-> FALSE, plain |-> "", dak |-> "gwu", han |-> ""],
  [r |-> "gwu", h |-> "ぐぅ", k |-> "グゥ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "qu", dak |-> "", han |-> ""],
  [r |-> "shu", h |-> "しゅ", k |-> "シュ", hep |-> "", kun |-> "", var |-> <<"syu">>, vk |-> TRUE, plain |-> "", dak |-> "ju", han |-> ""],
  [r |-> "ju", h |-> "じゅ", k |-> "ジュ", hep |-> "", kun |-> "", var |-> <<"zyu", "jyu">>, vk |-> TRUE, plain |-> "shu", dak |-> "", han |-> ""],
  [r |-> "chu", h |-> "ちゅ", k |-> "チュ", hep |-> "", kun |-> "", var |-> <<"tyu">>, vk |-> TRUE, plain |-> "", dak |-> "dyu", han |-> ""],
  [r |-> "dyu", h |-> "ぢゅ", k |-> "ヂュ", hep |-> "ju", kun |-> "zyu", var |-> <<>>, vk |-> FALSE, plain |-> "chu", dak |-> "", han |-> ""],
  [r |-> "thu", h |-> "てゅ", k |-> "テュ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "dhu", han |-> ""],
  [r |-> "dhu", h |-> "でゅ", k |-> "デュ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "thu", dak |-> "", han |-> ""],
  [r |-> "twu", h |-> "とぅ", k |-> "トゥ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "dwu", han |-> ""],
  [r |-> "dwu", h |-> "どぅ", k |-> "ドゥ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "twu", dak |-> "", han |-> ""],
  [r |-> "ke", h |-> "け", k |-> "ケ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "ge", han |-> ""],
  [r |-> "ge", h |-> "げ", k |-> "ゲ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "ke", dak |-> "", han |-> ""],
  [r |-> "kye", h |-> "きぇ", k |-> "キェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "gye", han |-> ""],
  [r |-> "gye", h |-> "ぎぇ", k |-> "ギェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "kye", dak |-> "", han |-> ""],
  [r |-> "se", h |-> "せ", k |-> "セ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "ze", han |-> ""],
  [r |-> "ze", h |-> "ぜ", k |-> "ゼ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "se", dak |-> "", han |-> ""],
  [r |-> "te", h |-> "て", k |-> "テ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "de", han |-> ""],
  [r |-> "de", h |-> "で", k |-> "デ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "te", dak |-> "", han |-> ""],
  [r |-> "we", h |-> "うぇ", k |-> "ウェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "ve", han |-> ""],
  [r |-> "ve", h |-> "ゔぇ", k |-> "ヴェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "we", dak |-> "", han |-> ""],
  [r |-> "qe", h |-> "くぇ", k |-> "クェ", hep |-> "", kun |-> "", var |-> <<"kwe", "qwe">>, vk |-> FALSE, plain |-> "", dak |-> "gwe", han |-> ""],
  [r |-> "gwe", h |-> "ぐぇ", k |-> "グェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "qe", dak |-> "", han |-> ""],
  [r |-> "she", h |-> "しぇ", k |-> "シェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "je", han |-> ""],
  [r |-> "je", h |-> "じぇ", k |-> "ジェ", hep |-> "", kun |-> "", var |-> <<"zye", "jye">>, vk |-> FALSE, plain |-> "she", dak |-> "", han |-> ""],
  [r |-> "che", h |-> "ちぇ", k |-> "チェ", hep |-> "", kun |-> "", var |-> <<"tye">>, vk |-> FALSE, plain |-> "", dak |-> "dye", han |-> ""],
  [r |-> "dye", h |-> "ぢぇ", k |-> "ヂェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "che", dak |-> "", han |-> ""],
  [r |-> "the", h |-> "てぇ", k |-> "テェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "dhe", han |-> ""],
  [r |-> "dhe", h |-> "でぇ", k |-> "デェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "the", dak |-> "", han |-> ""],
  [r |-> "twe", h |-> "とぇ", k |-> "トェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "dwe", han |-> ""],
  [r |-> "dwe", h |-> "どぇ", k |-> "ドェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "twe", dak |-> "", han |-> ""],
  [r |-> "ko", h |-> "こ", k |-> "コ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "go", han |-> ""],
  [r |-> "go", h |-> "ご", k |-> "ゴ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "ko", dak |-> "", han |-> ""],
  [r |-> "so", h |-> "そ", k |-> "ソ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "zo", han |-> ""],
  [r |-> "zo", h |-> "ぞ", k |-> "ゾ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "so", dak |-> "", han |-> ""],
  [r |-> "to", h |-> "と", k |-> "ト", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "do", han |-> ""],
  [r |-> "do", h |-> "ど", k |-> "ド", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "to", dak |-> "", han |-> ""],
  [r |-> "kyo", h |-> "きょ", k |-> "キョ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "gyo", han |-> ""],
  [r |-> "gyo", h |-> "ぎょ", k |-> "ギョ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "kyo", dak |-> "", han |-> ""],
  [r |-> "qo", h |-> "くぉ", k |-> "クォ", hep |-> "", kun |-> "", var |-> <<"kwo", "qwo">>, vk |-> FALSE, plain |-> "", dak |-> "gwo", han |-> ""],
  [r |-> "gwo", h |-> "ぐぉ", k |-> "グォ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "qo", dak |-> "", han |-> ""],
  [r |-> "sho", h |-> "しょ", k |-> "ショ", hep |-> "", kun |-> "", var |-> <<"syo">>, vk |-> TRUE, plain |-> "", dak |-> "jo", han |-> ""],
  [r |-> "jo", h |-> "じょ", k |-> "ジョ", hep |-> "", kun |-> "", var |-> <<"zyo", "jyo">>, vk |-> TRUE, plain |-> "sho", dak |-> "", han |-> ""],
  [r |-> "cho", h |-> "ちょ", k |-> "チョ", hep |-> "", kun |-> "", var |-> <<"tyo">>, vk |-> TRUE, plain |-> "", dak |-> "dyo", han |-> ""],
  [r |-> "dyo", h |-> "ぢょ", k |-> "ヂョ", hep |-> "jo", kun |-> "zyo", var |-> <<>>, vk |-> FALSE, plain |-> "cho", dak |-> "", han |-> ""],
  [r |-> "tho", h |-> "てょ", k |-> "テョ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "dho", han |-> ""],
  [r |-> "dho", h |-> "でょ", k |-> "デョ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "tho", dak |-> "", han |-> ""],
  [r |-> "two", h |-> "とぉ", k |-> "トォ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "dwo", han |-> ""],
  [r |-> "dwo", h |-> "どぉ", k |-> "ドォ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "two", dak |-> "", han |-> ""],
  [r |-> "ha", h |-> "は", k |-> "ハ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "ba", han |-> "pa"],
  [r |-> "ba", h |-> "ば", k |-> "バ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "ha", dak |-> "", han |-> ""],
  [r |-> "pa", h |-> "ぱ", k |-> "パ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "ha", dak |-> "", han |-> ""],
  [r |-> "hi", h |-> "ひ", k |-> "ヒ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "bi", han |-> "pi"],
  [r |-> "bi", h |-> "び", k |-> "ビ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "hi", dak |-> "", han |-> ""],
  [r |-> "pi", h |-> "ぴ", k |-> "ピ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "hi", dak |-> "", han |-> ""],
  [r |-> "fu", h |-> "ふ", k |-> "フ", hep |-> "", kun |-> "", var |-> <<"hu">>, vk |-> TRUE, plain |-> "", dak |-> "bu", han |-> "pu"],
  [r |-> "bu", h |-> "ぶ", k |-> "ブ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "fu", dak |-> "", han |-> ""],
  [r |-> "pu", h |-> "ぷ", k |-> "プ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "fu", dak |-> "", han |-> ""],
  [r |-> "he", h |-> "へ", k |-> "ヘ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "be", han |-> "pe"],
  [r |-> "be", h |-> "べ", k |-> "ベ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "he", dak |-> "", han |-> ""],
  [r |-> "pe", h |-> "ぺ", k |-> "ペ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "he", dak |-> "", han |-> ""],
  [r |-> "ho", h |-> "ほ", k |-> "ホ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "bo", han |-> "po"],
  [r |-> "bo", h |-> "ぼ", k |-> "ボ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "ho", dak |-> "", han |-> ""],
  [r |-> "po", h |-> "ぽ", k |-> "ポ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "ho", dak |-> "", han |-> ""],
  [r |-> "hya", h |-> "ひゃ", k |-> "ヒャ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "bya", han |-> "pya"],
  [r |-> "bya", h |-> "びゃ", k |-> "ビャ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "hya", dak |-> "", han |-> ""],
  [r |-> "pya", h |-> "ぴゃ", k |-> "ピャ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "hya", dak |-> "", han |-> ""],
  [r |-> "hyi", h |-> "ひぃ", k |-> "ヒィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "byi", han |-> "pyi"],
  [r |-> "byi", h |-> "びぃ", k |-> "ビィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "hyi", dak |-> "", han |-> ""],
  [r |-> "pyi", h |-> "ぴぃ", k |-> "ピィ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "hyi", dak |-> "", han |-> ""],
  [r |-> "hyu", h |-> "ひゅ", k |-> "ヒュ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "byu", han |-> "pyu"],
  [r |-> "byu", h |-> "びゅ", k |-> "ビュ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "hyu", dak |-> "", han |-> ""],
  [r |-> "pyu", h |-> "ぴゅ", k |-> "ピュ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "hyu", dak |-> "", han |-> ""],
  [r |-> "hye", h |-> "ひぇ", k |-> "ヒェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "bye", han |-> "pye"],
  [r |-> "bye", h |-> "びぇ", k |-> "ビェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "hye", dak |-> "", han |-> ""],
  [r |-> "pye", h |-> "ぴぇ", k |-> "ピェ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "hye", dak |-> "", han |-> ""],
  [r |-> "hyo", h |-> "ひょ", k |-> "ヒョ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "", dak |-> "byo", han |-> "pyo"],
  [r |-> "byo", h |-> "びょ", k |-> "ビョ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "hyo", dak |-> "", han |-> ""],
  [r |-> "pyo", h |-> "ぴょ", k |-> "ピョ", hep |-> "", kun |-> "", var |-> <<>>, vk |-> FALSE, plain |-> "hyo", dak |-> "", han |-> ""]>>
=============================================================================
