package h

// Code generated by tools/c18/gen_test.go from the CLDR names of ICU. DO NOT EDIT.

type namesOf struct {
	lang   string
	months []nameOf // names and the number of the month
	long   []nameOf // whole dates, # the day and ## the year
	days   []nameOf // names and the number of the weekday, Sunday being 0
	ago    []amountOf
}

type nameOf struct {
	text string
	n    int
}

// amountOf is a pattern; # stands for one of the digits 5..9, ## for 10..19.
type amountOf struct {
	text string
	unit int
	n    int // the amount, negative in the past; its sign alone where there are digits
}

var cldr = []namesOf{
	{"af",
		[]nameOf{{"Januarie", 1}, {"Jan.", 1}, {"Februarie", 2}, {"Feb.", 2}, {"Maart", 3}, {"Mrt.", 3}, {"April", 4}, {"Apr.", 4}, {"Mei", 5}, {"Junie", 6}, {"Jun.", 6}, {"Julie", 7}, {"Jul.", 7}, {"Augustus", 8}, {"Aug.", 8}, {"September", 9}, {"Sep.", 9}, {"Oktober", 10}, {"Okt.", 10}, {"November", 11}, {"Nov.", 11}, {"Desember", 12}, {"Des.", 12}},
		[]nameOf{{"# Januarie ##", 1}, {"# Februarie ##", 2}, {"# Maart ##", 3}, {"# April ##", 4}, {"# Mei ##", 5}, {"# Junie ##", 6}, {"# Julie ##", 7}, {"# Augustus ##", 8}, {"# September ##", 9}, {"# Oktober ##", 10}, {"# November ##", 11}, {"# Desember ##", 12}},
		[]nameOf{{"Maandag", 1}, {"Dinsdag", 2}, {"Woensdag", 3}, {"Donderdag", 4}, {"Vrydag", 5}, {"Saterdag", 6}, {"Sondag", 0}, {"Ma.", 1}, {"Di.", 2}, {"Wo.", 3}, {"Do.", 4}, {"Vr.", 5}, {"Sa.", 6}, {"So.", 0}},
		[]amountOf{{"1 sekonde gelede", 0, -1}, {"oor 1 sekonde", 0, 1}, {"2 sekondes gelede", 0, -2}, {"oor 2 sekondes", 0, 2}, {"# sekondes gelede", 0, -1}, {"oor # sekondes", 0, 1}, {"## sekondes gelede", 0, -1}, {"oor ## sekondes", 0, 1}, {"1 minuut gelede", 1, -1}, {"oor 1 minuut", 1, 1}, {"2 minute gelede", 1, -2}, {"# minute gelede", 1, -1}, {"## minute gelede", 1, -1}, {"1 uur gelede", 2, -1}, {"oor 1 uur", 2, 1}, {"2 uur gelede", 2, -2}, {"oor 2 uur", 2, 2}, {"# uur gelede", 2, -1}, {"oor # uur", 2, 1}, {"## uur gelede", 2, -1}, {"oor ## uur", 2, 1}, {"1 dag gelede", 3, -1}, {"oor 1 dag", 3, 1}, {"2 dae gelede", 3, -2}, {"oor 2 dae", 3, 2}, {"# dae gelede", 3, -1}, {"oor # dae", 3, 1}, {"## dae gelede", 3, -1}, {"oor ## dae", 3, 1}, {"1 week gelede", 4, -1}, {"oor 1 week", 4, 1}, {"2 weke gelede", 4, -2}, {"oor 2 weke", 4, 2}, {"# weke gelede", 4, -1}, {"oor # weke", 4, 1}, {"## weke gelede", 4, -1}, {"oor ## weke", 4, 1}, {"1 maand gelede", 5, -1}, {"2 maande gelede", 5, -2}, {"# maande gelede", 5, -1}, {"## maande gelede", 5, -1}, {"1 jaar gelede", 6, -1}, {"oor 1 jaar", 6, 1}, {"2 jaar gelede", 6, -2}, {"oor 2 jaar", 6, 2}, {"# jaar gelede", 6, -1}, {"oor # jaar", 6, 1}, {"## jaar gelede", 6, -1}, {"oor ## jaar", 6, 1}}},
	{"agq",
		[]nameOf{{"ndzɔ̀ŋɔ̀nùm", 1}, {"nùm", 1}, {"ndzɔ̀ŋɔ̀kƗ̀zùʔ", 2}, {"kɨz", 2}, {"ndzɔ̀ŋɔ̀tƗ̀dʉ̀ghà", 3}, {"tɨd", 3}, {"ndzɔ̀ŋɔ̀tǎafʉ̄ghā", 4}, {"taa", 4}, {"ndzɔ̀ŋèsèe", 5}, {"see", 5}, {"ndzɔ̀ŋɔ̀nzùghò", 6}, {"nzu", 6}, {"ndzɔ̀ŋɔ̀dùmlo", 7}, {"dum", 7}, {"ndzɔ̀ŋɔ̀kwîfɔ̀e", 8}, {"fɔe", 8}, {"ndzɔ̀ŋɔ̀tƗ̀fʉ̀ghàdzughù", 9}, {"dzu", 9}, {"ndzɔ̀ŋɔ̀ghǔuwelɔ̀m", 10}, {"lɔm", 10}, {"ndzɔ̀ŋɔ̀chwaʔàkaa wo", 11}, {"kaa", 11}, {"ndzɔ̀ŋèfwòo", 12}, {"fwo", 12}},
		[]nameOf{{"# ndzɔ̀ŋɔ̀nùm ##", 1}, {"# ndzɔ̀ŋɔ̀kƗ̀zùʔ ##", 2}, {"# ndzɔ̀ŋɔ̀tƗ̀dʉ̀ghà ##", 3}, {"# ndzɔ̀ŋɔ̀tǎafʉ̄ghā ##", 4}, {"# ndzɔ̀ŋèsèe ##", 5}, {"# ndzɔ̀ŋɔ̀nzùghò ##", 6}, {"# ndzɔ̀ŋɔ̀dùmlo ##", 7}, {"# ndzɔ̀ŋɔ̀kwîfɔ̀e ##", 8}, {"# ndzɔ̀ŋɔ̀tƗ̀fʉ̀ghàdzughù ##", 9}, {"# ndzɔ̀ŋɔ̀ghǔuwelɔ̀m ##", 10}, {"# ndzɔ̀ŋɔ̀chwaʔàkaa wo ##", 11}, {"# ndzɔ̀ŋèfwòo ##", 12}},
		[]nameOf{{"tsuʔukpà", 1}, {"tsuʔughɔe", 2}, {"tsuʔutɔ̀mlò", 3}, {"tsuʔumè", 4}, {"tsuʔughɨ̂m", 5}, {"tsuʔndzɨkɔʔɔ", 6}, {"tsuʔntsɨ", 0}, {"kpa", 1}, {"ghɔ", 2}, {"tɔm", 3}, {"ume", 4}, {"ghɨ", 5}, {"dzk", 6}, {"nts", 0}},
		[]amountOf{}},
	{"ak",
		[]nameOf{},
		[]nameOf{},
		[]nameOf{{"Benada", 2}, {"Memeneda", 6}, {"Dwo", 1}, {"Ben", 2}, {"Wuk", 3}, {"Yaw", 4}, {"Fia", 5}, {"Mem", 6}},
		[]amountOf{}},
	{"am",
		[]nameOf{{"ማርች", 3}, {"ኤፕሪል", 4}, {"ኤፕሪ", 4}, {"ሜይ", 5}, {"ጁን", 6}, {"ጁላይ", 7}, {"ኦገስት", 8}, {"ኦገስ", 8}, {"ሴፕቴምበር", 9}, {"ሴፕቴ", 9}, {"ኦክቶበር", 10}, {"ኦክቶ", 10}, {"ኖቬምበር", 11}, {"ኖቬም", 11}, {"ዲሴምበር", 12}, {"ዲሴም", 12}},
		[]nameOf{{"# ማርች ##", 3}, {"# ኤፕሪል ##", 4}, {"# ሜይ ##", 5}, {"# ጁን ##", 6}, {"# ጁላይ ##", 7}, {"# ኦገስት ##", 8}, {"# ሴፕቴምበር ##", 9}, {"# ኦክቶበር ##", 10}, {"# ኖቬምበር ##", 11}, {"# ዲሴምበር ##", 12}},
		[]nameOf{{"ሰኞ", 1}, {"ማክሰኞ", 2}, {"ረቡዕ", 3}, {"ሐሙስ", 4}, {"ዓርብ", 5}, {"ቅዳሜ", 6}, {"እሑድ", 0}, {"ማክሰ", 2}},
		[]amountOf{{"ከ1 ሰከንድ በፊት", 0, -1}, {"በ1 ሰከንድ ውስጥ", 0, 1}, {"ከ2 ሰከንዶች በፊት", 0, -2}, {"በ2 ሰከንዶች ውስጥ", 0, 2}, {"ከ# ሰከንዶች በፊት", 0, -1}, {"በ# ሰከንዶች ውስጥ", 0, 1}, {"ከ## ሰከንዶች በፊት", 0, -1}, {"በ## ሰከንዶች ውስጥ", 0, 1}, {"ከ1 ደቂቃ በፊት", 1, -1}, {"በ1 ደቂቃ ውስጥ", 1, 1}, {"ከ2 ደቂቃዎች በፊት", 1, -2}, {"በ2 ደቂቃዎች ውስጥ", 1, 2}, {"ከ# ደቂቃዎች በፊት", 1, -1}, {"በ# ደቂቃዎች ውስጥ", 1, 1}, {"ከ## ደቂቃዎች በፊት", 1, -1}, {"በ## ደቂቃዎች ውስጥ", 1, 1}, {"ከ1 ሰዓት በፊት", 2, -1}, {"በ1 ሰዓት ውስጥ", 2, 1}, {"ከ2 ሰዓቶች በፊት", 2, -2}, {"በ2 ሰዓቶች ውስጥ", 2, 2}, {"ከ# ሰዓቶች በፊት", 2, -1}, {"በ# ሰዓቶች ውስጥ", 2, 1}, {"ከ## ሰዓቶች በፊት", 2, -1}, {"በ## ሰዓቶች ውስጥ", 2, 1}, {"ከ1 ቀን በፊት", 3, -1}, {"በ1 ቀን ውስጥ", 3, 1}, {"ከ2 ቀናት በፊት", 3, -2}, {"በ2 ቀናት ውስጥ", 3, 2}, {"ከ# ቀናት በፊት", 3, -1}, {"በ# ቀናት ውስጥ", 3, 1}, {"ከ## ቀናት በፊት", 3, -1}, {"በ## ቀናት ውስጥ", 3, 1}, {"ከ1 ሳምንት በፊት", 4, -1}, {"በ1 ሳምንት ውስጥ", 4, 1}, {"ከ2 ሳምንታት በፊት", 4, -2}, {"በ2 ሳምንታት ውስጥ", 4, 2}, {"ከ# ሳምንታት በፊት", 4, -1}, {"በ# ሳምንታት ውስጥ", 4, 1}, {"ከ## ሳምንታት በፊት", 4, -1}, {"በ## ሳምንታት ውስጥ", 4, 1}, {"ከ1 ወር በፊት", 5, -1}, {"በ1 ወር ውስጥ", 5, 1}, {"ከ2 ወራት በፊት", 5, -2}, {"በ2 ወራት ውስጥ", 5, 2}, {"ከ# ወራት በፊት", 5, -1}, {"በ# ወራት ውስጥ", 5, 1}, {"ከ## ወራት በፊት", 5, -1}, {"በ## ወራት ውስጥ", 5, 1}, {"ከ1 ዓመት በፊት", 6, -1}, {"በ1 ዓመታት ውስጥ", 6, 1}, {"ከ2 ዓመታት በፊት", 6, -2}, {"በ2 ዓመታት ውስጥ", 6, 2}, {"ከ# ዓመታት በፊት", 6, -1}, {"በ# ዓመታት ውስጥ", 6, 1}, {"ከ## ዓመታት በፊት", 6, -1}, {"በ## ዓመታት ውስጥ", 6, 1}}},
	{"ar",
		[]nameOf{{"يناير", 1}, {"فبراير", 2}, {"مارس", 3}, {"أبريل", 4}, {"مايو", 5}, {"يونيو", 6}, {"يوليو", 7}, {"أغسطس", 8}, {"سبتمبر", 9}, {"أكتوبر", 10}, {"نوفمبر", 11}, {"ديسمبر", 12}},
		[]nameOf{{"# يناير ##", 1}, {"# فبراير ##", 2}, {"# مارس ##", 3}, {"# أبريل ##", 4}, {"# مايو ##", 5}, {"# يونيو ##", 6}, {"# يوليو ##", 7}, {"# أغسطس ##", 8}, {"# سبتمبر ##", 9}, {"# أكتوبر ##", 10}, {"# نوفمبر ##", 11}, {"# ديسمبر ##", 12}},
		[]nameOf{{"الاثنين", 1}, {"الثلاثاء", 2}, {"الأربعاء", 3}, {"الخميس", 4}, {"الجمعة", 5}, {"السبت", 6}, {"الأحد", 0}},
		[]amountOf{{"خلال # دقائق", 1, 1}, {"خلال ## دقائق", 1, 1}, {"خلال ساعة واحدة", 2, 1}, {"خلال ساعتين", 2, 2}, {"خلال # ساعات", 2, 1}, {"خلال ## ساعات", 2, 1}, {"خلال يومين", 3, 2}, {"خلال # أيام", 3, 1}, {"خلال ## أيام", 3, 1}}},
	{"as",
		[]nameOf{{"জানুৱাৰী", 1}, {"জানু", 1}, {"ফেব্ৰুৱাৰী", 2}, {"ফেব্ৰু", 2}, {"মাৰ্চ", 3}, {"এপ্ৰিল", 4}, {"মে’", 5}, {"জুন", 6}, {"জুলাই", 7}, {"আগষ্ট", 8}, {"আগ", 8}, {"ছেপ্তেম্বৰ", 9}, {"অক্টোবৰ", 10}, {"অক্টো", 10}, {"নৱেম্বৰ", 11}, {"ডিচেম্বৰ", 12}},
		[]nameOf{{"# জানুৱাৰী, ##", 1}, {"# ফেব্ৰুৱাৰী, ##", 2}, {"# মাৰ্চ, ##", 3}, {"# এপ্ৰিল, ##", 4}, {"# মে’, ##", 5}, {"# জুন, ##", 6}, {"# জুলাই, ##", 7}, {"# আগষ্ট, ##", 8}, {"# ছেপ্তেম্বৰ, ##", 9}, {"# অক্টোবৰ, ##", 10}, {"# নৱেম্বৰ, ##", 11}, {"# ডিচেম্বৰ, ##", 12}},
		[]nameOf{{"সোমবাৰ", 1}, {"মঙ্গলবাৰ", 2}, {"বুধবাৰ", 3}, {"শুক্ৰবাৰ", 5}, {"শনিবাৰ", 6}, {"দেওবাৰ", 0}, {"সোম", 1}, {"মঙ্গল", 2}, {"বুধ", 3}, {"শুক্ৰ", 5}, {"শনি", 6}},
		[]amountOf{}},
	{"asa",
		[]nameOf{{"Januari", 1}, {"Jan", 1}, {"Februari", 2}, {"Feb", 2}, {"Machi", 3}, {"Mac", 3}, {"Aprili", 4}, {"Apr", 4}, {"Mei", 5}, {"Juni", 6}, {"Jun", 6}, {"Julai", 7}, {"Jul", 7}, {"Agosti", 8}, {"Ago", 8}, {"Septemba", 9}, {"Sep", 9}, {"Oktoba", 10}, {"Okt", 10}, {"Novemba", 11}, {"Nov", 11}, {"Desemba", 12}, {"Dec", 12}},
		[]nameOf{{"# Januari ##", 1}, {"# Februari ##", 2}, {"# Machi ##", 3}, {"# Aprili ##", 4}, {"# Mei ##", 5}, {"# Juni ##", 6}, {"# Julai ##", 7}, {"# Agosti ##", 8}, {"# Septemba ##", 9}, {"# Oktoba ##", 10}, {"# Novemba ##", 11}, {"# Desemba ##", 12}},
		[]nameOf{{"Jumatatu", 1}, {"Jumanne", 2}, {"Jumatano", 3}, {"Alhamisi", 4}, {"Ijumaa", 5}, {"Jumamosi", 6}, {"Jumapili", 0}, {"Jtt", 1}, {"Jnn", 2}, {"Jtn", 3}, {"Alh", 4}, {"Ijm", 5}, {"Jmo", 6}, {"Jpi", 0}},
		[]amountOf{}},
	{"ast",
		[]nameOf{{"de xineru", 1}, {"xineru", 1}, {"xin", 1}, {"de febreru", 2}, {"febreru", 2}, {"feb", 2}, {"de marzu", 3}, {"marzu", 3}, {"d’abril", 4}, {"abril", 4}, {"abr", 4}, {"de mayu", 5}, {"mayu", 5}, {"may", 5}, {"de xunu", 6}, {"xunu", 6}, {"xun", 6}, {"de xunetu", 7}, {"xunetu", 7}, {"xnt", 7}, {"d’agostu", 8}, {"agostu", 8}, {"ago", 8}, {"de setiembre", 9}, {"setiembre", 9}, {"set", 9}, {"d’ochobre", 10}, {"ochobre", 10}, {"och", 10}, {"de payares", 11}, {"payares", 11}, {"pay", 11}, {"d’avientu", 12}, {"avientu", 12}, {"avi", 12}},
		[]nameOf{},
		[]nameOf{{"llunes", 1}, {"martes", 2}, {"miércoles", 3}, {"xueves", 4}, {"vienres", 5}, {"sábadu", 6}, {"domingu", 0}, {"llu", 1}, {"mié", 3}, {"xue", 4}, {"vie", 5}, {"sáb", 6}, {"dom", 0}},
		[]amountOf{{"hai 1 segundu", 0, -1}, {"en 1 segundu", 0, 1}, {"hai 2 segundos", 0, -2}, {"en 2 segundos", 0, 2}, {"hai # segundos", 0, -1}, {"en # segundos", 0, 1}, {"hai ## segundos", 0, -1}, {"en ## segundos", 0, 1}, {"hai 1 minutu", 1, -1}, {"en 1 minutu", 1, 1}, {"hai 2 minutos", 1, -2}, {"en 2 minutos", 1, 2}, {"hai # minutos", 1, -1}, {"en # minutos", 1, 1}, {"hai ## minutos", 1, -1}, {"en ## minutos", 1, 1}, {"hai 1 hora", 2, -1}, {"en 1 hora", 2, 1}, {"hai 2 hores", 2, -2}, {"en 2 hores", 2, 2}, {"hai # hores", 2, -1}, {"en # hores", 2, 1}, {"hai ## hores", 2, -1}, {"en ## hores", 2, 1}, {"hai 1 día", 3, -1}, {"en 1 día", 3, 1}, {"hai 2 díes", 3, -2}, {"en 2 díes", 3, 2}, {"hai # díes", 3, -1}, {"en # díes", 3, 1}, {"hai ## díes", 3, -1}, {"en ## díes", 3, 1}, {"hai 1 selmana", 4, -1}, {"en 1 selmana", 4, 1}, {"hai 2 selmanes", 4, -2}, {"en 2 selmanes", 4, 2}, {"hai # selmanes", 4, -1}, {"en # selmanes", 4, 1}, {"hai ## selmanes", 4, -1}, {"en ## selmanes", 4, 1}, {"hai 1 mes", 5, -1}, {"en 1 mes", 5, 1}, {"hai 2 meses", 5, -2}, {"en 2 meses", 5, 2}, {"hai # meses", 5, -1}, {"en # meses", 5, 1}, {"hai ## meses", 5, -1}, {"en ## meses", 5, 1}, {"hai 1 añu", 6, -1}, {"en 1 añu", 6, 1}, {"hai 2 años", 6, -2}, {"en 2 años", 6, 2}, {"hai # años", 6, -1}, {"en # años", 6, 1}, {"hai ## años", 6, -1}, {"en ## años", 6, 1}}},
	{"az",
		[]nameOf{{"yanvar", 1}, {"yan", 1}, {"fevral", 2}, {"fev", 2}, {"mart", 3}, {"mar", 3}, {"aprel", 4}, {"apr", 4}, {"may", 5}, {"iyun", 6}, {"iyn", 6}, {"iyul", 7}, {"iyl", 7}, {"avqust", 8}, {"avq", 8}, {"sentyabr", 9}, {"sen", 9}, {"oktyabr", 10}, {"okt", 10}, {"noyabr", 11}, {"noy", 11}, {"dekabr", 12}, {"dek", 12}},
		[]nameOf{{"# yanvar ##", 1}, {"# fevral ##", 2}, {"# mart ##", 3}, {"# aprel ##", 4}, {"# may ##", 5}, {"# iyun ##", 6}, {"# iyul ##", 7}, {"# avqust ##", 8}, {"# sentyabr ##", 9}, {"# oktyabr ##", 10}, {"# noyabr ##", 11}, {"# dekabr ##", 12}},
		[]nameOf{{"bazar ertəsi", 1}, {"çərşənbə axşamı", 2}, {"çərşənbə", 3}, {"cümə axşamı", 4}, {"cümə", 5}, {"şənbə", 6}, {"bazar", 0}, {"B.E.", 1}, {"Ç.A.", 2}, {"Ç.", 3}, {"C.A.", 4}, {"C.", 5}, {"Ş.", 6}, {"B.", 0}},
		[]amountOf{{"1 saniyə öncə", 0, -1}, {"1 saniyə ərzində", 0, 1}, {"2 saniyə öncə", 0, -2}, {"2 saniyə ərzində", 0, 2}, {"# saniyə öncə", 0, -1}, {"# saniyə ərzində", 0, 1}, {"## saniyə öncə", 0, -1}, {"## saniyə ərzində", 0, 1}, {"1 dəqiqə öncə", 1, -1}, {"1 dəqiqə ərzində", 1, 1}, {"2 dəqiqə öncə", 1, -2}, {"2 dəqiqə ərzində", 1, 2}, {"# dəqiqə öncə", 1, -1}, {"# dəqiqə ərzində", 1, 1}, {"## dəqiqə öncə", 1, -1}, {"## dəqiqə ərzində", 1, 1}, {"1 saat öncə", 2, -1}, {"1 saat ərzində", 2, 1}, {"2 saat öncə", 2, -2}, {"2 saat ərzində", 2, 2}, {"# saat öncə", 2, -1}, {"# saat ərzində", 2, 1}, {"## saat öncə", 2, -1}, {"## saat ərzində", 2, 1}, {"1 gün öncə", 3, -1}, {"1 gün ərzində", 3, 1}, {"2 gün öncə", 3, -2}, {"2 gün ərzində", 3, 2}, {"# gün öncə", 3, -1}, {"# gün ərzində", 3, 1}, {"## gün öncə", 3, -1}, {"## gün ərzində", 3, 1}, {"1 həftə öncə", 4, -1}, {"1 həftə ərzində", 4, 1}, {"2 həftə öncə", 4, -2}, {"2 həftə ərzində", 4, 2}, {"# həftə öncə", 4, -1}, {"# həftə ərzində", 4, 1}, {"## həftə öncə", 4, -1}, {"## həftə ərzində", 4, 1}, {"1 ay öncə", 5, -1}, {"1 ay ərzində", 5, 1}, {"2 ay öncə", 5, -2}, {"2 ay ərzində", 5, 2}, {"# ay öncə", 5, -1}, {"# ay ərzində", 5, 1}, {"## ay öncə", 5, -1}, {"## ay ərzində", 5, 1}, {"1 il öncə", 6, -1}, {"1 il ərzində", 6, 1}, {"2 il öncə", 6, -2}, {"2 il ərzində", 6, 2}, {"# il öncə", 6, -1}, {"# il ərzində", 6, 1}, {"## il öncə", 6, -1}, {"## il ərzində", 6, 1}}},
	{"az-Cyrl",
		[]nameOf{{"јанвар", 1}, {"Јанвар", 1}, {"јан", 1}, {"феврал", 2}, {"Феврал", 2}, {"фев", 2}, {"март", 3}, {"Март", 3}, {"мар", 3}, {"апрел", 4}, {"Апрел", 4}, {"апр", 4}, {"май", 5}, {"Май", 5}, {"ијун", 6}, {"Ијун", 6}, {"ијн", 6}, {"ијул", 7}, {"Ијул", 7}, {"ијл", 7}, {"август", 8}, {"Август", 8}, {"авг", 8}, {"сентјабр", 9}, {"Сентјабр", 9}, {"сен", 9}, {"октјабр", 10}, {"Октјабр", 10}, {"окт", 10}, {"нојабр", 11}, {"Нојабр", 11}, {"ној", 11}, {"декабр", 12}, {"Декабр", 12}, {"дек", 12}},
		[]nameOf{{"# јанвар ##", 1}, {"# феврал ##", 2}, {"# март ##", 3}, {"# апрел ##", 4}, {"# май ##", 5}, {"# ијун ##", 6}, {"# ијул ##", 7}, {"# август ##", 8}, {"# сентјабр ##", 9}, {"# октјабр ##", 10}, {"# нојабр ##", 11}, {"# декабр ##", 12}},
		[]nameOf{{"базар ертәси", 1}, {"чәршәнбә ахшамы", 2}, {"чәршәнбә", 3}, {"ҹүмә ахшамы", 4}, {"ҹүмә", 5}, {"шәнбә", 6}, {"базар", 0}, {"Б.Е.", 1}, {"Ч.А.", 2}, {"Ч.", 3}, {"Ҹ.А.", 4}, {"Ҹ.", 5}, {"Ш.", 6}, {"Б.", 0}},
		[]amountOf{}},
	{"az-Latn",
		[]nameOf{{"yanvar", 1}, {"yan", 1}, {"fevral", 2}, {"fev", 2}, {"mart", 3}, {"mar", 3}, {"aprel", 4}, {"apr", 4}, {"may", 5}, {"iyun", 6}, {"iyn", 6}, {"iyul", 7}, {"iyl", 7}, {"avqust", 8}, {"avq", 8}, {"sentyabr", 9}, {"sen", 9}, {"oktyabr", 10}, {"okt", 10}, {"noyabr", 11}, {"noy", 11}, {"dekabr", 12}, {"dek", 12}},
		[]nameOf{{"# yanvar ##", 1}, {"# fevral ##", 2}, {"# mart ##", 3}, {"# aprel ##", 4}, {"# may ##", 5}, {"# iyun ##", 6}, {"# iyul ##", 7}, {"# avqust ##", 8}, {"# sentyabr ##", 9}, {"# oktyabr ##", 10}, {"# noyabr ##", 11}, {"# dekabr ##", 12}},
		[]nameOf{{"bazar ertəsi", 1}, {"çərşənbə axşamı", 2}, {"çərşənbə", 3}, {"cümə axşamı", 4}, {"cümə", 5}, {"şənbə", 6}, {"bazar", 0}, {"B.E.", 1}, {"Ç.A.", 2}, {"Ç.", 3}, {"C.A.", 4}, {"C.", 5}, {"Ş.", 6}, {"B.", 0}},
		[]amountOf{{"1 saniyə öncə", 0, -1}, {"1 saniyə ərzində", 0, 1}, {"2 saniyə öncə", 0, -2}, {"2 saniyə ərzində", 0, 2}, {"# saniyə öncə", 0, -1}, {"# saniyə ərzində", 0, 1}, {"## saniyə öncə", 0, -1}, {"## saniyə ərzində", 0, 1}, {"1 dəqiqə öncə", 1, -1}, {"1 dəqiqə ərzində", 1, 1}, {"2 dəqiqə öncə", 1, -2}, {"2 dəqiqə ərzində", 1, 2}, {"# dəqiqə öncə", 1, -1}, {"# dəqiqə ərzində", 1, 1}, {"## dəqiqə öncə", 1, -1}, {"## dəqiqə ərzində", 1, 1}, {"1 saat öncə", 2, -1}, {"1 saat ərzində", 2, 1}, {"2 saat öncə", 2, -2}, {"2 saat ərzində", 2, 2}, {"# saat öncə", 2, -1}, {"# saat ərzində", 2, 1}, {"## saat öncə", 2, -1}, {"## saat ərzində", 2, 1}, {"1 gün öncə", 3, -1}, {"1 gün ərzində", 3, 1}, {"2 gün öncə", 3, -2}, {"2 gün ərzində", 3, 2}, {"# gün öncə", 3, -1}, {"# gün ərzində", 3, 1}, {"## gün öncə", 3, -1}, {"## gün ərzində", 3, 1}, {"1 həftə öncə", 4, -1}, {"1 həftə ərzində", 4, 1}, {"2 həftə öncə", 4, -2}, {"2 həftə ərzində", 4, 2}, {"# həftə öncə", 4, -1}, {"# həftə ərzində", 4, 1}, {"## həftə öncə", 4, -1}, {"## həftə ərzində", 4, 1}, {"1 ay öncə", 5, -1}, {"1 ay ərzində", 5, 1}, {"2 ay öncə", 5, -2}, {"2 ay ərzində", 5, 2}, {"# ay öncə", 5, -1}, {"# ay ərzində", 5, 1}, {"## ay öncə", 5, -1}, {"## ay ərzində", 5, 1}, {"1 il öncə", 6, -1}, {"1 il ərzində", 6, 1}, {"2 il öncə", 6, -2}, {"2 il ərzində", 6, 2}, {"# il öncə", 6, -1}, {"# il ərzində", 6, 1}, {"## il öncə", 6, -1}, {"## il ərzində", 6, 1}}},
	{"bas",
		[]nameOf{{"Kɔndɔŋ", 1}, {"kɔn", 1}, {"Màcɛ̂l", 2}, {"mac", 2}, {"Màtùmb", 3}, {"mat", 3}, {"Màtop", 4}, {"mto", 4}, {"M̀puyɛ", 5}, {"mpu", 5}, {"Hìlòndɛ̀", 6}, {"hil", 6}, {"Njèbà", 7}, {"nje", 7}, {"Hìkaŋ", 8}, {"hik", 8}, {"Dìpɔ̀s", 9}, {"dip", 9}, {"Bìòôm", 10}, {"bio", 10}, {"Màyɛsèp", 11}, {"may", 11}, {"Lìbuy li ńyèe", 12}, {"liɓ", 12}},
		[]nameOf{{"# Kɔndɔŋ ##", 1}, {"# Màcɛ̂l ##", 2}, {"# Màtùmb ##", 3}, {"# Màtop ##", 4}, {"# M̀puyɛ ##", 5}, {"# Hìlòndɛ̀ ##", 6}, {"# Njèbà ##", 7}, {"# Hìkaŋ ##", 8}, {"# Dìpɔ̀s ##", 9}, {"# Bìòôm ##", 10}, {"# Màyɛsèp ##", 11}, {"# Lìbuy li ńyèe ##", 12}},
		[]nameOf{{"ŋgwà njaŋgumba", 1}, {"ŋgwà ûm", 2}, {"ŋgwà ŋgê", 3}, {"ŋgwà mbɔk", 4}, {"ŋgwà kɔɔ", 5}, {"ŋgwà jôn", 6}, {"ŋgwà nɔ̂y", 0}, {"nja", 1}, {"uum", 2}, {"ŋge", 3}, {"mbɔ", 4}, {"kɔɔ", 5}, {"jon", 6}, {"nɔy", 0}},
		[]amountOf{}},
	{"be",
		[]nameOf{{"студзеня", 1}, {"студзень", 1}, {"сту", 1}, {"лютага", 2}, {"люты", 2}, {"лют", 2}, {"сакавіка", 3}, {"сакавік", 3}, {"сак", 3}, {"красавіка", 4}, {"красавік", 4}, {"кра", 4}, {"мая", 5}, {"май", 5}, {"чэрвеня", 6}, {"чэрвень", 6}, {"чэр", 6}, {"ліпеня", 7}, {"ліпень", 7}, {"ліп", 7}, {"жніўня", 8}, {"жнівень", 8}, {"жні", 8}, {"верасня", 9}, {"верасень", 9}, {"вер", 9}, {"кастрычніка", 10}, {"кастрычнік", 10}, {"кас", 10}, {"лістапада", 11}, {"лістапад", 11}, {"ліс", 11}, {"снежня", 12}, {"снежань", 12}, {"сне", 12}},
		[]nameOf{{"# студзеня ## г.", 1}, {"# лютага ## г.", 2}, {"# сакавіка ## г.", 3}, {"# красавіка ## г.", 4}, {"# мая ## г.", 5}, {"# чэрвеня ## г.", 6}, {"# ліпеня ## г.", 7}, {"# жніўня ## г.", 8}, {"# верасня ## г.", 9}, {"# кастрычніка ## г.", 10}, {"# лістапада ## г.", 11}, {"# снежня ## г.", 12}},
		[]nameOf{{"панядзелак", 1}, {"аўторак", 2}, {"серада", 3}, {"чацвер", 4}, {"пятніца", 5}, {"субота", 6}, {"нядзеля", 0}, {"пн", 1}, {"аў", 2}, {"ср", 3}, {"чц", 4}, {"пт", 5}, {"сб", 6}, {"нд", 0}},
		[]amountOf{{"1 секунду таму", 0, -1}, {"праз 1 секунду", 0, 1}, {"2 секунды таму", 0, -2}, {"праз 2 секунды", 0, 2}, {"# секунд таму", 0, -1}, {"## секунд таму", 0, -1}, {"1 хвіліну таму", 1, -1}, {"праз 1 хвіліну", 1, 1}, {"2 хвіліны таму", 1, -2}, {"праз 2 хвіліны", 1, 2}, {"# хвілін таму", 1, -1}, {"## хвілін таму", 1, -1}, {"1 гадзіну таму", 2, -1}, {"2 гадзіны таму", 2, -2}, {"праз 2 гадзіны", 2, 2}, {"# гадзін таму", 2, -1}, {"## гадзін таму", 2, -1}, {"1 дзень таму", 3, -1}, {"праз 1 дзень", 3, 1}, {"2 дні таму", 3, -2}, {"# дзён таму", 3, -1}, {"## дзён таму", 3, -1}, {"1 тыдзень таму", 4, -1}, {"праз 1 тыдзень", 4, 1}, {"2 тыдні таму", 4, -2}, {"# тыдняў таму", 4, -1}, {"## тыдняў таму", 4, -1}, {"1 месяц таму", 5, -1}, {"праз 1 месяц", 5, 1}, {"2 месяцы таму", 5, -2}, {"# месяцаў таму", 5, -1}, {"## месяцаў таму", 5, -1}, {"1 год таму", 6, -1}, {"праз 1 год", 6, 1}, {"2 гады таму", 6, -2}, {"# гадоў таму", 6, -1}, {"## гадоў таму", 6, -1}}},
	{"bem",
		[]nameOf{{"Januari", 1}, {"Jan", 1}, {"Februari", 2}, {"Feb", 2}, {"Machi", 3}, {"Mac", 3}, {"Epreo", 4}, {"Epr", 4}, {"Mei", 5}, {"Juni", 6}, {"Jun", 6}, {"Julai", 7}, {"Jul", 7}, {"Ogasti", 8}, {"Oga", 8}, {"Septemba", 9}, {"Sep", 9}, {"Oktoba", 10}, {"Okt", 10}, {"Novemba", 11}, {"Nov", 11}, {"Disemba", 12}, {"Dis", 12}},
		[]nameOf{{"# Januari ##", 1}, {"# Februari ##", 2}, {"# Machi ##", 3}, {"# Epreo ##", 4}, {"# Mei ##", 5}, {"# Juni ##", 6}, {"# Julai ##", 7}, {"# Ogasti ##", 8}, {"# Septemba ##", 9}, {"# Oktoba ##", 10}, {"# Novemba ##", 11}, {"# Disemba ##", 12}},
		[]nameOf{{"Palichimo", 1}, {"Palichibuli", 2}, {"Palichitatu", 3}, {"Palichine", 4}, {"Palichisano", 5}, {"Pachibelushi", 6}, {"Pa Mulungu", 0}},
		[]amountOf{}},
	{"bez",
		[]nameOf{{"pa mwedzi gwa hutala", 1}, {"Hut", 1}, {"pa mwedzi gwa wuvili", 2}, {"pa mwedzi gwa wudatu", 3}, {"Dat", 3}, {"pa mwedzi gwa wutai", 4}, {"Tai", 4}, {"pa mwedzi gwa wuhanu", 5}, {"Han", 5}, {"pa mwedzi gwa sita", 6}, {"Sit", 6}, {"pa mwedzi gwa saba", 7}, {"Sab", 7}, {"pa mwedzi gwa nane", 8}, {"Nan", 8}, {"pa mwedzi gwa tisa", 9}, {"Tis", 9}, {"pa mwedzi gwa kumi", 10}, {"Kum", 10}, {"pa mwedzi gwa kumi na moja", 11}, {"Kmj", 11}, {"pa mwedzi gwa kumi na mbili", 12}, {"Kmb", 12}},
		[]nameOf{{"# pa mwedzi gwa hutala ##", 1}, {"# pa mwedzi gwa wuvili ##", 2}, {"# pa mwedzi gwa wudatu ##", 3}, {"# pa mwedzi gwa wutai ##", 4}, {"# pa mwedzi gwa wuhanu ##", 5}, {"# pa mwedzi gwa sita ##", 6}, {"# pa mwedzi gwa saba ##", 7}, {"# pa mwedzi gwa nane ##", 8}, {"# pa mwedzi gwa tisa ##", 9}, {"# pa mwedzi gwa kumi ##", 10}, {"# pa mwedzi gwa kumi na moja ##", 11}, {"# pa mwedzi gwa kumi na mbili ##", 12}},
		[]nameOf{{"pa shahuviluha", 1}, {"pa hivili", 2}, {"pa hidatu", 3}, {"pa hitayi", 4}, {"pa hihanu", 5}, {"pa shahulembela", 6}, {"pa mulungu", 0}, {"Hiv", 2}, {"Hid", 3}, {"Hit", 4}, {"Hih", 5}, {"Lem", 6}, {"Mul", 0}},
		[]amountOf{}},
	{"bg",
		[]nameOf{{"януари", 1}, {"01", 1}, {"февруари", 2}, {"02", 2}, {"март", 3}, {"03", 3}, {"април", 4}, {"04", 4}, {"май", 5}, {"05", 5}, {"юни", 6}, {"06", 6}, {"юли", 7}, {"07", 7}, {"август", 8}, {"08", 8}, {"септември", 9}, {"09", 9}, {"октомври", 10}, {"10", 10}, {"ноември", 11}, {"11", 11}, {"декември", 12}, {"12", 12}},
		[]nameOf{{"# януари ## г.", 1}, {"# февруари ## г.", 2}, {"# март ## г.", 3}, {"# април ## г.", 4}, {"# май ## г.", 5}, {"# юни ## г.", 6}, {"# юли ## г.", 7}, {"# август ## г.", 8}, {"# септември ## г.", 9}, {"# октомври ## г.", 10}, {"# ноември ## г.", 11}, {"# декември ## г.", 12}},
		[]nameOf{{"понеделник", 1}, {"вторник", 2}, {"сряда", 3}, {"четвъртък", 4}, {"петък", 5}, {"събота", 6}, {"неделя", 0}, {"пн", 1}, {"вт", 2}, {"ср", 3}, {"чт", 4}, {"пт", 5}, {"сб", 6}, {"нд", 0}},
		[]amountOf{{"преди 1 секунда", 0, -1}, {"след 1 секунда", 0, 1}, {"преди 2 секунди", 0, -2}, {"след 2 секунди", 0, 2}, {"преди # секунди", 0, -1}, {"след # секунди", 0, 1}, {"преди ## секунди", 0, -1}, {"след ## секунди", 0, 1}, {"преди 1 минута", 1, -1}, {"след 1 минута", 1, 1}, {"преди 2 минути", 1, -2}, {"след 2 минути", 1, 2}, {"преди # минути", 1, -1}, {"след # минути", 1, 1}, {"преди ## минути", 1, -1}, {"след ## минути", 1, 1}, {"преди 1 час", 2, -1}, {"след 1 час", 2, 1}, {"преди 2 часа", 2, -2}, {"след 2 часа", 2, 2}, {"преди # часа", 2, -1}, {"след # часа", 2, 1}, {"преди ## часа", 2, -1}, {"след ## часа", 2, 1}, {"преди 1 ден", 3, -1}, {"след 1 ден", 3, 1}, {"преди 2 дни", 3, -2}, {"след 2 дни", 3, 2}, {"преди # дни", 3, -1}, {"след # дни", 3, 1}, {"преди ## дни", 3, -1}, {"след ## дни", 3, 1}, {"преди 1 седмица", 4, -1}, {"след 1 седмица", 4, 1}, {"преди 2 седмици", 4, -2}, {"след 2 седмици", 4, 2}, {"преди # седмици", 4, -1}, {"след # седмици", 4, 1}, {"преди ## седмици", 4, -1}, {"след ## седмици", 4, 1}, {"преди 1 месец", 5, -1}, {"след 1 месец", 5, 1}, {"преди 2 месеца", 5, -2}, {"след 2 месеца", 5, 2}, {"преди # месеца", 5, -1}, {"след # месеца", 5, 1}, {"преди ## месеца", 5, -1}, {"след ## месеца", 5, 1}, {"преди 1 година", 6, -1}, {"след 1 година", 6, 1}, {"преди 2 години", 6, -2}, {"след 2 години", 6, 2}, {"преди # години", 6, -1}, {"след # години", 6, 1}, {"преди ## години", 6, -1}, {"след ## години", 6, 1}}},
	{"bm",
		[]nameOf{{"zanwuye", 1}, {"zan", 1}, {"feburuye", 2}, {"feb", 2}, {"marisi", 3}, {"mar", 3}, {"awirili", 4}, {"awi", 4}, {"mɛ", 5}, {"zuwɛn", 6}, {"zuw", 6}, {"zuluye", 7}, {"zul", 7}, {"uti", 8}, {"sɛtanburu", 9}, {"sɛt", 9}, {"ɔkutɔburu", 10}, {"ɔku", 10}, {"nowanburu", 11}, {"desanburu", 12}, {"des", 12}},
		[]nameOf{{"# zanwuye ##", 1}, {"# feburuye ##", 2}, {"# marisi ##", 3}, {"# awirili ##", 4}, {"# mɛ ##", 5}, {"# zuwɛn ##", 6}, {"# zuluye ##", 7}, {"# uti ##", 8}, {"# sɛtanburu ##", 9}, {"# ɔkutɔburu ##", 10}, {"# nowanburu ##", 11}, {"# desanburu ##", 12}},
		[]nameOf{{"ntɛnɛ", 1}, {"tarata", 2}, {"araba", 3}, {"alamisa", 4}, {"juma", 5}, {"sibiri", 6}, {"kari", 0}, {"ntɛ", 1}, {"tar", 2}, {"ara", 3}, {"ala", 4}, {"jum", 5}, {"sib", 6}, {"kar", 0}},
		[]amountOf{}},
	{"bn",
		[]nameOf{{"জানুয়ারি", 1}, {"জানু", 1}, {"ফেব্রুয়ারি", 2}, {"ফেব", 2}, {"মার্চ", 3}, {"এপ্রিল", 4}, {"মে", 5}, {"জুন", 6}, {"জুলাই", 7}, {"আগস্ট", 8}, {"সেপ্টেম্বর", 9}, {"অক্টোবর", 10}, {"নভেম্বর", 11}, {"ডিসেম্বর", 12}},
		[]nameOf{{"# জানুয়ারি, ##", 1}, {"# ফেব্রুয়ারি, ##", 2}, {"# মার্চ, ##", 3}, {"# এপ্রিল, ##", 4}, {"# মে, ##", 5}, {"# জুন, ##", 6}, {"# জুলাই, ##", 7}, {"# আগস্ট, ##", 8}, {"# সেপ্টেম্বর, ##", 9}, {"# অক্টোবর, ##", 10}, {"# নভেম্বর, ##", 11}, {"# ডিসেম্বর, ##", 12}},
		[]nameOf{{"সোমবার", 1}, {"মঙ্গলবার", 2}, {"বুধবার", 3}, {"বৃহস্পতিবার", 4}, {"শুক্রবার", 5}, {"শনিবার", 6}, {"রবিবার", 0}, {"সোম", 1}, {"মঙ্গল", 2}, {"বুধ", 3}, {"বৃহস্পতি", 4}, {"শুক্র", 5}, {"শনি", 6}, {"রবি", 0}},
		[]amountOf{{"1 সেকেন্ড আগে", 0, -1}, {"1 সেকেন্ডে", 0, 1}, {"2 সেকেন্ড পূর্বে", 0, -2}, {"2 সেকেন্ডে", 0, 2}, {"# সেকেন্ড পূর্বে", 0, -1}, {"# সেকেন্ডে", 0, 1}, {"## সেকেন্ড পূর্বে", 0, -1}, {"## সেকেন্ডে", 0, 1}, {"1 মিনিট আগে", 1, -1}, {"1 মিনিটে", 1, 1}, {"2 মিনিট আগে", 1, -2}, {"2 মিনিটে", 1, 2}, {"# মিনিট আগে", 1, -1}, {"# মিনিটে", 1, 1}, {"## মিনিট আগে", 1, -1}, {"## মিনিটে", 1, 1}, {"1 দিন আগে", 3, -1}, {"1 দিনের মধ্যে", 3, 1}, {"2 দিন আগে", 3, -2}, {"2 দিনের মধ্যে", 3, 2}, {"# দিন আগে", 3, -1}, {"# দিনের মধ্যে", 3, 1}, {"## দিন আগে", 3, -1}, {"## দিনের মধ্যে", 3, 1}, {"1 সপ্তাহ আগে", 4, -1}, {"1 সপ্তাহে", 4, 1}, {"2 সপ্তাহ আগে", 4, -2}, {"2 সপ্তাহে", 4, 2}, {"# সপ্তাহ আগে", 4, -1}, {"# সপ্তাহে", 4, 1}, {"## সপ্তাহ আগে", 4, -1}, {"## সপ্তাহে", 4, 1}, {"1 মাস আগে", 5, -1}, {"1 মাসে", 5, 1}, {"2 মাস আগে", 5, -2}, {"2 মাসে", 5, 2}, {"# মাস আগে", 5, -1}, {"# মাসে", 5, 1}, {"## মাস আগে", 5, -1}, {"## মাসে", 5, 1}, {"1 বছর পূর্বে", 6, -1}, {"1 বছরে", 6, 1}, {"2 বছর পূর্বে", 6, -2}, {"2 বছরে", 6, 2}, {"# বছর পূর্বে", 6, -1}, {"# বছরে", 6, 1}, {"## বছর পূর্বে", 6, -1}, {"## বছরে", 6, 1}}},
	{"bo",
		[]nameOf{{"ཟླ་བ་དང་པོ", 1}, {"ཟླ་བ་དང་པོ་", 1}, {"ཟླ་བ་གཉིས་པ", 2}, {"ཟླ་བ་གཉིས་པ་", 2}, {"ཟླ་བ་གསུམ་པ", 3}, {"ཟླ་བ་གསུམ་པ་", 3}, {"ཟླ་བ་བཞི་པ", 4}, {"ཟླ་བ་བཞི་པ་", 4}, {"ཟླ་བ་ལྔ་པ", 5}, {"ཟླ་བ་ལྔ་པ་", 5}, {"ཟླ་བ་དྲུག་པ", 6}, {"ཟླ་བ་དྲུག་པ་", 6}, {"ཟླ་བ་བདུན་པ", 7}, {"ཟླ་བ་བདུན་པ་", 7}, {"ཟླ་བ་བརྒྱད་པ", 8}, {"ཟླ་བ་བརྒྱད་པ་", 8}, {"ཟླ་བ་དགུ་པ", 9}, {"ཟླ་བ་དགུ་པ་", 9}, {"ཟླ་བ་བཅུ་པ", 10}, {"ཟླ་བ་བཅུ་པ་", 10}, {"ཟླ་བ་བཅུ་གཅིག་པ", 11}, {"ཟླ་བ་བཅུ་གཅིག་པ་", 11}, {"ཟླ་བ་བཅུ་གཉིས་པ", 12}, {"ཟླ་བ་བཅུ་གཉིས་པ་", 12}},
		[]nameOf{},
		[]nameOf{{"གཟའ་ཟླ་བ་", 1}, {"གཟའ་མིག་དམར་", 2}, {"གཟའ་ལྷག་པ་", 3}, {"གཟའ་ཕུར་བུ་", 4}, {"གཟའ་པ་སངས་", 5}, {"གཟའ་སྤེན་པ་", 6}, {"གཟའ་ཉི་མ་", 0}, {"ཟླ་བ་", 1}, {"མིག་དམར་", 2}, {"ལྷག་པ་", 3}, {"ཕུར་བུ་", 4}, {"པ་སངས་", 5}, {"སྤེན་པ་", 6}, {"ཉི་མ་", 0}},
		[]amountOf{}},
	{"br",
		[]nameOf{{"Genver", 1}, {"Gen.", 1}, {"Cʼhwevrer", 2}, {"Cʼhwe.", 2}, {"Meurzh", 3}, {"Meur.", 3}, {"Ebrel", 4}, {"Ebr.", 4}, {"Mae", 5}, {"Mezheven", 6}, {"Mezh.", 6}, {"Gouere", 7}, {"Goue.", 7}, {"Eost", 8}, {"Gwengolo", 9}, {"Gwen.", 9}, {"Here", 10}, {"Du", 11}, {"Kerzu", 12}, {"Kzu.", 12}},
		[]nameOf{{"# Genver ##", 1}, {"# Cʼhwevrer ##", 2}, {"# Meurzh ##", 3}, {"# Ebrel ##", 4}, {"# Mae ##", 5}, {"# Mezheven ##", 6}, {"# Gouere ##", 7}, {"# Eost ##", 8}, {"# Gwengolo ##", 9}, {"# Here ##", 10}, {"# Du ##", 11}, {"# Kerzu ##", 12}},
		[]nameOf{{"Lun", 1}, {"Mercʼher", 3}, {"Yaou", 4}, {"Gwener", 5}, {"Sadorn", 6}, {"Sul", 0}, {"Meu.", 2}, {"Mer.", 3}, {"Gwe.", 5}, {"Sad.", 6}},
		[]amountOf{{"1 eilenn zo", 0, -1}, {"a-benn 1 eilenn", 0, 1}, {"2 eilenn zo", 0, -2}, {"a-benn 2 eilenn", 0, 2}, {"# eilenn zo", 0, -1}, {"a-benn # eilenn", 0, 1}, {"## eilenn zo", 0, -1}, {"a-benn ## eilenn", 0, 1}, {"1 munut zo", 1, -1}, {"a-benn 1 munut", 1, 1}, {"# munut zo", 1, -1}, {"a-benn # munut", 1, 1}, {"## munut zo", 1, -1}, {"a-benn ## munut", 1, 1}, {"1 eur zo", 2, -1}, {"a-benn 1 eur", 2, 1}, {"2 eur zo", 2, -2}, {"a-benn 2 eur", 2, 2}, {"# eur zo", 2, -1}, {"a-benn # eur", 2, 1}, {"## eur zo", 2, -1}, {"a-benn ## eur", 2, 1}, {"1 deiz zo", 3, -1}, {"a-benn 1 deiz", 3, 1}, {"# deiz zo", 3, -1}, {"a-benn # deiz", 3, 1}, {"## deiz zo", 3, -1}, {"a-benn ## deiz", 3, 1}, {"1 sizhun zo", 4, -1}, {"a-benn 1 sizhun", 4, 1}, {"2 sizhun zo", 4, -2}, {"a-benn 2 sizhun", 4, 2}, {"# sizhun zo", 4, -1}, {"a-benn # sizhun", 4, 1}, {"## sizhun zo", 4, -1}, {"a-benn ## sizhun", 4, 1}, {"1 miz zo", 5, -1}, {"a-benn 1 miz", 5, 1}, {"# miz zo", 5, -1}, {"a-benn # miz", 5, 1}, {"## miz zo", 5, -1}, {"a-benn ## miz", 5, 1}, {"1 bloaz zo", 6, -1}, {"a-benn 1 bloaz", 6, 1}, {"2 vloaz zo", 6, -2}, {"a-benn 2 vloaz", 6, 2}, {"# vloaz zo", 6, -1}, {"a-benn # vloaz", 6, 1}, {"## vloaz zo", 6, -1}, {"a-benn ## vloaz", 6, 1}}},
	{"brx",
		[]nameOf{{"जानुवारी", 1}, {"फेब्रूवारी", 2}, {"मे", 5}, {"जुन", 6}},
		[]nameOf{{"# जानुवारी, ##", 1}, {"# फेब्रूवारी, ##", 2}, {"# मे, ##", 5}, {"# जुन, ##", 6}},
		[]nameOf{{"समबार", 1}, {"मंगलबार", 2}, {"बिस्थिबार", 4}, {"सुुखुरबार", 5}, {"सनिबार", 6}, {"रबिबार", 0}, {"सम", 1}, {"मंगल", 2}, {"बिस्थि", 4}, {"सुखुर", 5}, {"सनि", 6}, {"रबि", 0}},
		[]amountOf{}},
	{"bs",
		[]nameOf{{"januar", 1}, {"jan", 1}, {"februar", 2}, {"feb", 2}, {"mart", 3}, {"mar", 3}, {"april", 4}, {"apr", 4}, {"maj", 5}, {"juni", 6}, {"jun", 6}, {"juli", 7}, {"jul", 7}, {"septembar", 9}, {"sep", 9}, {"oktobar", 10}, {"okt", 10}, {"novembar", 11}, {"nov", 11}, {"decembar", 12}, {"dec", 12}},
		[]nameOf{{"#. januar ##.", 1}, {"#. februar ##.", 2}, {"#. mart ##.", 3}, {"#. april ##.", 4}, {"#. maj ##.", 5}, {"#. juni ##.", 6}, {"#. juli ##.", 7}, {"#. septembar ##.", 9}, {"#. oktobar ##.", 10}, {"#. novembar ##.", 11}, {"#. decembar ##.", 12}},
		[]nameOf{{"ponedjeljak", 1}, {"utorak", 2}, {"srijeda", 3}, {"četvrtak", 4}, {"petak", 5}, {"subota", 6}, {"nedjelja", 0}, {"pon", 1}, {"uto", 2}, {"sri", 3}, {"čet", 4}, {"pet", 5}, {"sub", 6}, {"ned", 0}},
		[]amountOf{{"prije 1 sekundu", 0, -1}, {"za 1 sekundu", 0, 1}, {"prije # sekundi", 0, -1}, {"za # sekundi", 0, 1}, {"prije ## sekundi", 0, -1}, {"za ## sekundi", 0, 1}, {"prije 1 minutu", 1, -1}, {"za 1 minutu", 1, 1}, {"prije # minuta", 1, -1}, {"za # minuta", 1, 1}, {"prije ## minuta", 1, -1}, {"za ## minuta", 1, 1}, {"prije 1 sat", 2, -1}, {"za 1 sat", 2, 1}, {"prije # sati", 2, -1}, {"za # sati", 2, 1}, {"prije ## sati", 2, -1}, {"za ## sati", 2, 1}, {"prije 1 dan", 3, -1}, {"za 1 dan", 3, 1}, {"prije 2 dana", 3, -2}, {"za 2 dana", 3, 2}, {"prije # dana", 3, -1}, {"za # dana", 3, 1}, {"prije ## dana", 3, -1}, {"za ## dana", 3, 1}, {"prije 1 sedmicu", 4, -1}, {"za 1 sedmicu", 4, 1}, {"prije # sedmica", 4, -1}, {"za # sedmica", 4, 1}, {"prije ## sedmica", 4, -1}, {"za ## sedmica", 4, 1}, {"prije 1 mjesec", 5, -1}, {"za 1 mjesec", 5, 1}, {"prije # mjeseci", 5, -1}, {"za # mjeseci", 5, 1}, {"prije ## mjeseci", 5, -1}, {"za ## mjeseci", 5, 1}, {"prije 1 godinu", 6, -1}, {"za 1 godinu", 6, 1}, {"prije # godina", 6, -1}, {"za # godina", 6, 1}, {"prije ## godina", 6, -1}, {"za ## godina", 6, 1}}},
	{"bs-Cyrl",
		[]nameOf{{"јануар", 1}, {"јан", 1}, {"фебруар", 2}, {"феб", 2}, {"март", 3}, {"мар", 3}, {"април", 4}, {"апр", 4}, {"мај", 5}, {"јуни", 6}, {"јун", 6}, {"јули", 7}, {"јул", 7}, {"септембар", 9}, {"сеп", 9}, {"октобар", 10}, {"окт", 10}, {"новембар", 11}, {"нов", 11}, {"децембар", 12}, {"дец", 12}},
		[]nameOf{{"#. јануар ##.", 1}, {"#. фебруар ##.", 2}, {"#. март ##.", 3}, {"#. април ##.", 4}, {"#. мај ##.", 5}, {"#. јуни ##.", 6}, {"#. јули ##.", 7}, {"#. септембар ##.", 9}, {"#. октобар ##.", 10}, {"#. новембар ##.", 11}, {"#. децембар ##.", 12}},
		[]nameOf{{"уторак", 2}, {"сриједа", 3}, {"четвртак", 4}, {"петак", 5}, {"субота", 6}, {"пон", 1}, {"уто", 2}, {"сри", 3}, {"чет", 4}, {"пет", 5}, {"суб", 6}, {"нед", 0}},
		[]amountOf{{"за 1 секунд", 0, 1}, {"за # секунди", 0, 1}, {"за ## секунди", 0, 1}, {"за 1 минут", 1, 1}, {"за 2 минута", 1, 2}, {"за # минута", 1, 1}, {"за ## минута", 1, 1}, {"за 1 сат", 2, 1}, {"за # сати", 2, 1}, {"за ## сати", 2, 1}, {"за 1 дан", 3, 1}, {"за 2 дана", 3, 2}, {"за # дана", 3, 1}, {"за ## дана", 3, 1}, {"за 1 годину", 6, 1}, {"за # година", 6, 1}, {"за ## година", 6, 1}}},
	{"bs-Latn",
		[]nameOf{{"januar", 1}, {"jan", 1}, {"februar", 2}, {"feb", 2}, {"mart", 3}, {"mar", 3}, {"april", 4}, {"apr", 4}, {"maj", 5}, {"juni", 6}, {"jun", 6}, {"juli", 7}, {"jul", 7}, {"septembar", 9}, {"sep", 9}, {"oktobar", 10}, {"okt", 10}, {"novembar", 11}, {"nov", 11}, {"decembar", 12}, {"dec", 12}},
		[]nameOf{{"#. januar ##.", 1}, {"#. februar ##.", 2}, {"#. mart ##.", 3}, {"#. april ##.", 4}, {"#. maj ##.", 5}, {"#. juni ##.", 6}, {"#. juli ##.", 7}, {"#. septembar ##.", 9}, {"#. oktobar ##.", 10}, {"#. novembar ##.", 11}, {"#. decembar ##.", 12}},
		[]nameOf{{"ponedjeljak", 1}, {"utorak", 2}, {"srijeda", 3}, {"četvrtak", 4}, {"petak", 5}, {"subota", 6}, {"nedjelja", 0}, {"pon", 1}, {"uto", 2}, {"sri", 3}, {"čet", 4}, {"pet", 5}, {"sub", 6}, {"ned", 0}},
		[]amountOf{{"prije 1 sekundu", 0, -1}, {"za 1 sekundu", 0, 1}, {"prije # sekundi", 0, -1}, {"za # sekundi", 0, 1}, {"prije ## sekundi", 0, -1}, {"za ## sekundi", 0, 1}, {"prije 1 minutu", 1, -1}, {"za 1 minutu", 1, 1}, {"prije # minuta", 1, -1}, {"za # minuta", 1, 1}, {"prije ## minuta", 1, -1}, {"za ## minuta", 1, 1}, {"prije 1 sat", 2, -1}, {"za 1 sat", 2, 1}, {"prije # sati", 2, -1}, {"za # sati", 2, 1}, {"prije ## sati", 2, -1}, {"za ## sati", 2, 1}, {"prije 1 dan", 3, -1}, {"za 1 dan", 3, 1}, {"prije 2 dana", 3, -2}, {"za 2 dana", 3, 2}, {"prije # dana", 3, -1}, {"za # dana", 3, 1}, {"prije ## dana", 3, -1}, {"za ## dana", 3, 1}, {"prije 1 sedmicu", 4, -1}, {"za 1 sedmicu", 4, 1}, {"prije # sedmica", 4, -1}, {"za # sedmica", 4, 1}, {"prije ## sedmica", 4, -1}, {"za ## sedmica", 4, 1}, {"prije 1 mjesec", 5, -1}, {"za 1 mjesec", 5, 1}, {"prije # mjeseci", 5, -1}, {"za # mjeseci", 5, 1}, {"prije ## mjeseci", 5, -1}, {"za ## mjeseci", 5, 1}, {"prije 1 godinu", 6, -1}, {"za 1 godinu", 6, 1}, {"prije # godina", 6, -1}, {"za # godina", 6, 1}, {"prije ## godina", 6, -1}, {"za ## godina", 6, 1}}},
	{"ca",
		[]nameOf{{"de gener", 1}, {"gener", 1}, {"de gen.", 1}, {"de febrer", 2}, {"febrer", 2}, {"de febr.", 2}, {"de març", 3}, {"març", 3}, {"d’abril", 4}, {"abril", 4}, {"d’abr.", 4}, {"de maig", 5}, {"maig", 5}, {"de juny", 6}, {"juny", 6}, {"de juliol", 7}, {"juliol", 7}, {"de jul.", 7}, {"d’agost", 8}, {"agost", 8}, {"d’ag.", 8}, {"de setembre", 9}, {"setembre", 9}, {"de set.", 9}, {"d’octubre", 10}, {"octubre", 10}, {"d’oct.", 10}, {"de novembre", 11}, {"novembre", 11}, {"de nov.", 11}, {"de desembre", 12}, {"desembre", 12}, {"de des.", 12}},
		[]nameOf{{"# de gener del ##", 1}, {"# de febrer del ##", 2}, {"# de març del ##", 3}, {"# d’abril del ##", 4}, {"# de maig del ##", 5}, {"# de juny del ##", 6}, {"# de juliol del ##", 7}, {"# d’agost del ##", 8}, {"# de setembre del ##", 9}, {"# d’octubre del ##", 10}, {"# de novembre del ##", 11}, {"# de desembre del ##", 12}},
		[]nameOf{{"dilluns", 1}, {"dimarts", 2}, {"dimecres", 3}, {"dijous", 4}, {"divendres", 5}, {"dissabte", 6}, {"diumenge", 0}, {"dl.", 1}, {"dt.", 2}, {"dc.", 3}, {"dj.", 4}, {"dv.", 5}, {"ds.", 6}, {"dg.", 0}},
		[]amountOf{{"fa 1 segon", 0, -1}, {"d’aquí a 1 segon", 0, 1}, {"fa 2 segons", 0, -2}, {"d’aquí a 2 segons", 0, 2}, {"fa # segons", 0, -1}, {"d’aquí a # segons", 0, 1}, {"fa ## segons", 0, -1}, {"d’aquí a ## segons", 0, 1}, {"fa 1 minut", 1, -1}, {"d’aquí a 1 minut", 1, 1}, {"fa 2 minuts", 1, -2}, {"d’aquí a 2 minuts", 1, 2}, {"fa # minuts", 1, -1}, {"d’aquí a # minuts", 1, 1}, {"fa ## minuts", 1, -1}, {"d’aquí a ## minuts", 1, 1}, {"fa 1 hora", 2, -1}, {"d’aquí a 1 hora", 2, 1}, {"fa 2 hores", 2, -2}, {"d’aquí a 2 hores", 2, 2}, {"fa # hores", 2, -1}, {"d’aquí a # hores", 2, 1}, {"fa ## hores", 2, -1}, {"d’aquí a ## hores", 2, 1}, {"fa 1 dia", 3, -1}, {"d’aquí a 1 dia", 3, 1}, {"fa 2 dies", 3, -2}, {"d’aquí a 2 dies", 3, 2}, {"fa # dies", 3, -1}, {"d’aquí a # dies", 3, 1}, {"fa ## dies", 3, -1}, {"d’aquí a ## dies", 3, 1}, {"fa 1 setmana", 4, -1}, {"d’aquí a 1 setmana", 4, 1}, {"fa 2 setmanes", 4, -2}, {"d’aquí a 2 setmanes", 4, 2}, {"fa # setmanes", 4, -1}, {"d’aquí a # setmanes", 4, 1}, {"fa ## setmanes", 4, -1}, {"d’aquí a ## setmanes", 4, 1}, {"fa 1 mes", 5, -1}, {"d’aquí a 1 mes", 5, 1}, {"fa 2 mesos", 5, -2}, {"d’aquí a 2 mesos", 5, 2}, {"fa # mesos", 5, -1}, {"d’aquí a # mesos", 5, 1}, {"fa ## mesos", 5, -1}, {"d’aquí a ## mesos", 5, 1}, {"fa 1 any", 6, -1}, {"d’aquí a 1 any", 6, 1}, {"fa 2 anys", 6, -2}, {"d’aquí a 2 anys", 6, 2}, {"fa # anys", 6, -1}, {"d’aquí a # anys", 6, 1}, {"fa ## anys", 6, -1}, {"d’aquí a ## anys", 6, 1}}},
	{"ce",
		[]nameOf{{"январь", 1}, {"янв", 1}, {"февраль", 2}, {"фев", 2}, {"март", 3}, {"мар", 3}, {"апрель", 4}, {"апр", 4}, {"май", 5}, {"июнь", 6}, {"июн", 6}, {"июль", 7}, {"июл", 7}, {"август", 8}, {"авг", 8}, {"сентябрь", 9}, {"сен", 9}, {"октябрь", 10}, {"окт", 10}, {"ноябрь", 11}, {"ноя", 11}, {"декабрь", 12}, {"дек", 12}},
		[]nameOf{{"## январь #", 1}, {"## февраль #", 2}, {"## март #", 3}, {"## апрель #", 4}, {"## май #", 5}, {"## июнь #", 6}, {"## июль #", 7}, {"## август #", 8}, {"## сентябрь #", 9}, {"## октябрь #", 10}, {"## ноябрь #", 11}, {"## декабрь #", 12}},
		[]nameOf{},
		[]amountOf{{"1 секунд хьалха", 0, -1}, {"1 секунд яьлча", 0, 1}, {"2 секунд хьалха", 0, -2}, {"2 секунд яьлча", 0, 2}, {"# секунд хьалха", 0, -1}, {"# секунд яьлча", 0, 1}, {"## секунд хьалха", 0, -1}, {"## секунд яьлча", 0, 1}, {"1 минот хьалха", 1, -1}, {"1 минот яьлча", 1, 1}, {"2 минот хьалха", 1, -2}, {"2 минот яьлча", 1, 2}, {"# минот хьалха", 1, -1}, {"# минот яьлча", 1, 1}, {"## минот хьалха", 1, -1}, {"## минот яьлча", 1, 1}, {"1 сахьт хьалха", 2, -1}, {"1 сахьт даьлча", 2, 1}, {"2 сахьт хьалха", 2, -2}, {"2 сахьт даьлча", 2, 2}, {"# сахьт хьалха", 2, -1}, {"# сахьт даьлча", 2, 1}, {"## сахьт хьалха", 2, -1}, {"## сахьт даьлча", 2, 1}, {"1 де хьалха", 3, -1}, {"1 де даьлча", 3, 1}, {"2 де хьалха", 3, -2}, {"2 де даьлча", 3, 2}, {"# де хьалха", 3, -1}, {"# де даьлча", 3, 1}, {"## де хьалха", 3, -1}, {"## де даьлча", 3, 1}, {"1 кӀира хьалха", 4, -1}, {"1 кӀира даьлча", 4, 1}, {"2 кӀира хьалха", 4, -2}, {"2 кӀира даьлча", 4, 2}, {"# кӀира хьалха", 4, -1}, {"# кӀира даьлча", 4, 1}, {"## кӀира хьалха", 4, -1}, {"## кӀира даьлча", 4, 1}, {"1 бутт хьалха", 5, -1}, {"1 бутт баьлча", 5, 1}, {"2 бутт хьалха", 5, -2}, {"2 бутт баьлча", 5, 2}, {"# бутт хьалха", 5, -1}, {"# бутт баьлча", 5, 1}, {"## бутт хьалха", 5, -1}, {"## бутт баьлча", 5, 1}, {"1 шо хьалха", 6, -1}, {"1 шо даьлча", 6, 1}, {"2 шо хьалха", 6, -2}, {"2 шо даьлча", 6, 2}, {"# шо хьалха", 6, -1}, {"# шо даьлча", 6, 1}, {"## шо хьалха", 6, -1}, {"## шо даьлча", 6, 1}}},
	{"cgg",
		[]nameOf{{"Okwokubanza", 1}, {"KBZ", 1}, {"Okwakabiri", 2}, {"KBR", 2}, {"Okwakashatu", 3}, {"KST", 3}, {"Okwakana", 4}, {"KKN", 4}, {"Okwakataana", 5}, {"KTN", 5}, {"Okwamukaaga", 6}, {"KMK", 6}, {"Okwamushanju", 7}, {"KMS", 7}, {"Okwamunaana", 8}, {"KMN", 8}, {"Okwamwenda", 9}, {"KMW", 9}, {"Okwaikumi", 10}, {"KKM", 10}, {"Okwaikumi na kumwe", 11}, {"KNK", 11}, {"Okwaikumi na ibiri", 12}, {"KNB", 12}},
		[]nameOf{{"# Okwokubanza ##", 1}, {"# Okwakabiri ##", 2}, {"# Okwakashatu ##", 3}, {"# Okwakana ##", 4}, {"# Okwakataana ##", 5}, {"# Okwamukaaga ##", 6}, {"# Okwamushanju ##", 7}, {"# Okwamunaana ##", 8}, {"# Okwamwenda ##", 9}, {"# Okwaikumi ##", 10}, {"# Okwaikumi na kumwe ##", 11}, {"# Okwaikumi na ibiri ##", 12}},
		[]nameOf{{"Orwokubanza", 1}, {"Orwakabiri", 2}, {"Orwakashatu", 3}, {"Orwakana", 4}, {"Orwakataano", 5}, {"Orwamukaaga", 6}, {"Sande", 0}, {"ORK", 1}, {"OKB", 2}, {"OKS", 3}, {"OKN", 4}, {"OKT", 5}, {"OMK", 6}, {"SAN", 0}},
		[]amountOf{}},
	{"chr",
		[]nameOf{{"ᎤᏃᎸᏔᏅ", 1}, {"ᎤᏃ", 1}, {"ᎧᎦᎵ", 2}, {"ᎧᎦ", 2}, {"ᎠᏅᏱ", 3}, {"ᎠᏅ", 3}, {"ᎧᏬᏂ", 4}, {"ᎧᏬ", 4}, {"ᎠᏂᏍᎬᏘ", 5}, {"ᎠᏂ", 5}, {"ᏕᎭᎷᏱ", 6}, {"ᏕᎭ", 6}, {"ᎫᏰᏉᏂ", 7}, {"ᎫᏰ", 7}, {"ᎦᎶᏂ", 8}, {"ᎦᎶ", 8}, {"ᏚᎵᏍᏗ", 9}, {"ᏚᎵ", 9}, {"ᏚᏂᏅᏗ", 10}, {"ᏚᏂ", 10}, {"ᏅᏓᏕᏆ", 11}, {"ᏅᏓ", 11}, {"ᎥᏍᎩᏱ", 12}, {"ᎥᏍ", 12}},
		[]nameOf{{"ᎤᏃᎸᏔᏅ #, ##", 1}, {"ᎧᎦᎵ #, ##", 2}, {"ᎠᏅᏱ #, ##", 3}, {"ᎧᏬᏂ #, ##", 4}, {"ᎠᏂᏍᎬᏘ #, ##", 5}, {"ᏕᎭᎷᏱ #, ##", 6}, {"ᎫᏰᏉᏂ #, ##", 7}, {"ᎦᎶᏂ #, ##", 8}, {"ᏚᎵᏍᏗ #, ##", 9}, {"ᏚᏂᏅᏗ #, ##", 10}, {"ᏅᏓᏕᏆ #, ##", 11}, {"ᎥᏍᎩᏱ #, ##", 12}},
		[]nameOf{{"ᎤᎾᏙᏓᏉᏅᎯ", 1}, {"ᏔᎵᏁᎢᎦ", 2}, {"ᏦᎢᏁᎢᎦ", 3}, {"ᏅᎩᏁᎢᎦ", 4}, {"ᏧᎾᎩᎶᏍᏗ", 5}, {"ᎤᎾᏙᏓᏈᏕᎾ", 6}, {"ᎤᎾᏙᏓᏆᏍᎬ", 0}, {"ᏉᏅᎯ", 1}, {"ᏔᎵᏁ", 2}, {"ᏦᎢᏁ", 3}, {"ᏅᎩᏁ", 4}, {"ᏧᎾᎩ", 5}, {"ᏈᏕᎾ", 6}, {"ᏆᏍᎬ", 0}},
		[]amountOf{{"1 ᎠᏎᏢ ᏥᎨᏒ", 0, -1}, {"ᎾᎿ 1 ᎠᏎᏢ", 0, 1}, {"2 ᏓᏓᎾᏩᏍᎬ ᏥᎨᏒ", 0, -2}, {"ᎾᎿ 2 ᏓᏓᎾᏩᏍᎬ ᏥᎨᏒ", 0, 2}, {"# ᏓᏓᎾᏩᏍᎬ ᏥᎨᏒ", 0, -1}, {"ᎾᎿ # ᏓᏓᎾᏩᏍᎬ ᏥᎨᏒ", 0, 1}, {"## ᏓᏓᎾᏩᏍᎬ ᏥᎨᏒ", 0, -1}, {"ᎾᎿ ## ᏓᏓᎾᏩᏍᎬ ᏥᎨᏒ", 0, 1}, {"ᎾᎿ 1 ᎢᏯᏔᏬᏍᏔᏅ", 1, 1}, {"ᎾᎿ 2 ᎢᏯᏔᏬᏍᏔᏅ", 1, 2}, {"ᎾᎿ # ᎢᏯᏔᏬᏍᏔᏅ", 1, 1}, {"ᎾᎿ ## ᎢᏯᏔᏬᏍᏔᏅ", 1, 1}, {"1 ᏑᏟᎶᏓ ᏥᎨᏒ", 2, -1}, {"ᎾᎿ 1 ᏑᏟᎶᏓ", 2, 1}, {"2 ᎢᏳᏟᎶᏓ ᏥᎨᏒ", 2, -2}, {"ᎾᎿ 2 ᎢᏳᏟᎶᏓ", 2, 2}, {"# ᎢᏳᏟᎶᏓ ᏥᎨᏒ", 2, -1}, {"ᎾᎿ # ᎢᏳᏟᎶᏓ", 2, 1}, {"## ᎢᏳᏟᎶᏓ ᏥᎨᏒ", 2, -1}, {"ᎾᎿ ## ᎢᏳᏟᎶᏓ", 2, 1}, {"1 ᎢᎦ ᏥᎨᏒ", 3, -1}, {"ᎾᎿ 1 ᎢᎦ", 3, 1}, {"2 ᎯᎸᏍᎩ ᏧᏒᎯᏛ ᏥᎨᏒ", 3, -2}, {"ᎾᎿ 2 ᎯᎸᏍᎩ ᏧᏒᎯᏛ", 3, 2}, {"# ᎯᎸᏍᎩ ᏧᏒᎯᏛ ᏥᎨᏒ", 3, -1}, {"ᎾᎿ # ᎯᎸᏍᎩ ᏧᏒᎯᏛ", 3, 1}, {"## ᎯᎸᏍᎩ ᏧᏒᎯᏛ ᏥᎨᏒ", 3, -1}, {"ᎾᎿ ## ᎯᎸᏍᎩ ᏧᏒᎯᏛ", 3, 1}, {"ᎾᎿ 1 ᏒᎾᏙᏓᏆᏍᏗ", 4, 1}, {"ᎾᎿ 2 ᎢᏳᎾᏙᏓᏆᏍᏗ", 4, 2}, {"ᎾᎿ # ᎢᏳᎾᏙᏓᏆᏍᏗ", 4, 1}, {"ᎾᎿ ## ᎢᏳᎾᏙᏓᏆᏍᏗ", 4, 1}, {"1 ᎧᎸᎢ ᏥᎨᏒ", 5, -1}, {"ᎾᎿ 1 ᎧᎸᎢ", 5, 1}, {"ᎾᎿ 2 ᏗᎧᎸᎢ", 5, 2}, {"ᎾᎿ # ᏗᎧᎸᎢ", 5, 1}, {"ᎾᎿ ## ᏗᎧᎸᎢ", 5, 1}, {"1 ᎤᏕᏘᏴᏌᏗᏒᎢ ᏥᎨᏒ", 6, -1}, {"ᎾᎿ 1 ᎤᏕᏘᏴᏌᏗᏒᎢ", 6, 1}, {"2 ᎢᏧᏕᏘᏴᏌᏗᏒᎢ ᏥᎨᏒ", 6, -2}, {"ᎾᎿ 2 ᎢᏧᏕᏘᏴᏌᏗᏒᎢ", 6, 2}, {"# ᎢᏧᏕᏘᏴᏌᏗᏒᎢ ᏥᎨᏒ", 6, -1}, {"ᎾᎿ # ᎢᏧᏕᏘᏴᏌᏗᏒᎢ", 6, 1}, {"## ᎢᏧᏕᏘᏴᏌᏗᏒᎢ ᏥᎨᏒ", 6, -1}, {"ᎾᎿ ## ᎢᏧᏕᏘᏴᏌᏗᏒᎢ", 6, 1}}},
	{"ckb",
		[]nameOf{{"کانوونی دووەم", 1}, {"شوبات", 2}, {"ئازار", 3}, {"نیسان", 4}, {"ئایار", 5}, {"حوزەیران", 6}, {"تەمووز", 7}, {"ئاب", 8}, {"ئەیلوول", 9}, {"تشرینی یەکەم", 10}, {"تشرینی دووەم", 11}, {"کانونی یەکەم", 12}},
		[]nameOf{},
		[]nameOf{{"دووشەممە", 1}, {"سێشەممە", 2}, {"چوارشەممە", 3}, {"پێنجشەممە", 4}, {"ھەینی", 5}, {"شەممە", 6}, {"یەکشەممە", 0}},
		[]amountOf{}},
	{"cs",
		[]nameOf{{"ledna", 1}, {"leden", 1}, {"1", 1}, {"února", 2}, {"únor", 2}, {"2", 2}, {"března", 3}, {"březen", 3}, {"3", 3}, {"dubna", 4}, {"duben", 4}, {"4", 4}, {"května", 5}, {"květen", 5}, {"5", 5}, {"června", 6}, {"červen", 6}, {"6", 6}, {"července", 7}, {"červenec", 7}, {"7", 7}, {"srpna", 8}, {"srpen", 8}, {"8", 8}, {"září", 9}, {"9", 9}, {"října", 10}, {"říjen", 10}, {"10", 10}, {"listopadu", 11}, {"listopad", 11}, {"11", 11}, {"prosince", 12}, {"prosinec", 12}, {"12", 12}},
		[]nameOf{{"#. ledna ##", 1}, {"#. února ##", 2}, {"#. března ##", 3}, {"#. dubna ##", 4}, {"#. května ##", 5}, {"#. června ##", 6}, {"#. července ##", 7}, {"#. srpna ##", 8}, {"#. září ##", 9}, {"#. října ##", 10}, {"#. listopadu ##", 11}, {"#. prosince ##", 12}},
		[]nameOf{{"pondělí", 1}, {"úterý", 2}, {"středa", 3}, {"čtvrtek", 4}, {"pátek", 5}, {"sobota", 6}, {"neděle", 0}, {"po", 1}, {"út", 2}, {"st", 3}, {"čt", 4}, {"pá", 5}, {"so", 6}, {"ne", 0}},
		[]amountOf{{"před 1 sekundou", 0, -1}, {"za 1 sekundu", 0, 1}, {"před 2 sekundami", 0, -2}, {"před # sekundami", 0, -1}, {"za # sekund", 0, 1}, {"před ## sekundami", 0, -1}, {"za ## sekund", 0, 1}, {"před 1 minutou", 1, -1}, {"za 1 minutu", 1, 1}, {"před 2 minutami", 1, -2}, {"před # minutami", 1, -1}, {"za # minut", 1, 1}, {"před ## minutami", 1, -1}, {"za ## minut", 1, 1}, {"před 1 hodinou", 2, -1}, {"za 1 hodinu", 2, 1}, {"před 2 hodinami", 2, -2}, {"před # hodinami", 2, -1}, {"za # hodin", 2, 1}, {"před ## hodinami", 2, -1}, {"za ## hodin", 2, 1}, {"před 1 dnem", 3, -1}, {"za 1 den", 3, 1}, {"před 2 dny", 3, -2}, {"před # dny", 3, -1}, {"za # dní", 3, 1}, {"před ## dny", 3, -1}, {"za ## dní", 3, 1}, {"před 1 týdnem", 4, -1}, {"za 1 týden", 4, 1}, {"před 2 týdny", 4, -2}, {"před # týdny", 4, -1}, {"za # týdnů", 4, 1}, {"před ## týdny", 4, -1}, {"za ## týdnů", 4, 1}, {"před 1 měsícem", 5, -1}, {"za 1 měsíc", 5, 1}, {"před 2 měsíci", 5, -2}, {"před # měsíci", 5, -1}, {"za # měsíců", 5, 1}, {"před ## měsíci", 5, -1}, {"za ## měsíců", 5, 1}, {"před 1 rokem", 6, -1}, {"za 1 rok", 6, 1}, {"před 2 lety", 6, -2}, {"před # lety", 6, -1}, {"za # let", 6, 1}, {"před ## lety", 6, -1}, {"za ## let", 6, 1}}},
	{"cy",
		[]nameOf{{"Ionawr", 1}, {"Ion", 1}, {"Chwefror", 2}, {"Chwef", 2}, {"Mawrth", 3}, {"Ebrill", 4}, {"Ebr", 4}, {"Mai", 5}, {"Mehefin", 6}, {"Meh", 6}, {"Gorffennaf", 7}, {"Gorff", 7}, {"Awst", 8}, {"Medi", 9}, {"Hydref", 10}, {"Hyd", 10}, {"Tachwedd", 11}, {"Tach", 11}, {"Rhagfyr", 12}, {"Rhag", 12}},
		[]nameOf{{"# Ionawr ##", 1}, {"# Chwefror ##", 2}, {"# Mawrth ##", 3}, {"# Ebrill ##", 4}, {"# Mai ##", 5}, {"# Mehefin ##", 6}, {"# Gorffennaf ##", 7}, {"# Awst ##", 8}, {"# Medi ##", 9}, {"# Hydref ##", 10}, {"# Tachwedd ##", 11}, {"# Rhagfyr ##", 12}},
		[]nameOf{{"Dydd Llun", 1}, {"Dydd Mawrth", 2}, {"Dydd Mercher", 3}, {"Dydd Iau", 4}, {"Dydd Gwener", 5}, {"Dydd Sadwrn", 6}, {"Dydd Sul", 0}, {"Llun", 1}, {"Mer", 3}, {"Iau", 4}, {"Gwe", 5}, {"Sad", 6}, {"Sul", 0}},
		[]amountOf{{"1 eiliad yn ôl", 0, -1}, {"ymhen 1 eiliad", 0, 1}, {"2 eiliad yn ôl", 0, -2}, {"ymhen 2 eiliad", 0, 2}, {"# eiliad yn ôl", 0, -1}, {"ymhen # eiliad", 0, 1}, {"## eiliad yn ôl", 0, -1}, {"ymhen ## eiliad", 0, 1}, {"1 munud yn ôl", 1, -1}, {"ymhen 1 munud", 1, 1}, {"2 munud yn ôl", 1, -2}, {"ymhen 2 munud", 1, 2}, {"# munud yn ôl", 1, -1}, {"ymhen # munud", 1, 1}, {"## munud yn ôl", 1, -1}, {"ymhen ## munud", 1, 1}, {"1 awr yn ôl", 2, -1}, {"2 awr yn ôl", 2, -2}, {"ymhen 2 awr", 2, 2}, {"# awr yn ôl", 2, -1}, {"ymhen # awr", 2, 1}, {"## awr yn ôl", 2, -1}, {"ymhen ## awr", 2, 1}, {"1 diwrnod yn ôl", 3, -1}, {"# diwrnod yn ôl", 3, -1}, {"ymhen # diwrnod", 3, 1}, {"## diwrnod yn ôl", 3, -1}, {"ymhen ## diwrnod", 3, 1}, {"1 wythnos yn ôl", 4, -1}, {"2 wythnos yn ôl", 4, -2}, {"# wythnos yn ôl", 4, -1}, {"ymhen # wythnos", 4, 1}, {"## wythnos yn ôl", 4, -1}, {"ymhen ## wythnos", 4, 1}, {"1 mis yn ôl", 5, -1}, {"# mis yn ôl", 5, -1}, {"ymhen # mis", 5, 1}, {"## mis yn ôl", 5, -1}, {"ymhen ## mis", 5, 1}, {"# o flynyddoedd yn ôl", 6, -1}, {"ymhen # mlynedd", 6, 1}, {"## o flynyddoedd yn ôl", 6, -1}, {"ymhen ## mlynedd", 6, 1}}},
	{"da",
		[]nameOf{{"januar", 1}, {"jan.", 1}, {"februar", 2}, {"feb.", 2}, {"marts", 3}, {"mar.", 3}, {"april", 4}, {"apr.", 4}, {"maj", 5}, {"juni", 6}, {"jun.", 6}, {"juli", 7}, {"jul.", 7}, {"august", 8}, {"aug.", 8}, {"september", 9}, {"sep.", 9}, {"oktober", 10}, {"okt.", 10}, {"november", 11}, {"nov.", 11}, {"december", 12}, {"dec.", 12}},
		[]nameOf{{"#. januar ##", 1}, {"#. februar ##", 2}, {"#. marts ##", 3}, {"#. april ##", 4}, {"#. maj ##", 5}, {"#. juni ##", 6}, {"#. juli ##", 7}, {"#. august ##", 8}, {"#. september ##", 9}, {"#. oktober ##", 10}, {"#. november ##", 11}, {"#. december ##", 12}},
		[]nameOf{{"mandag", 1}, {"tirsdag", 2}, {"onsdag", 3}, {"torsdag", 4}, {"fredag", 5}, {"lørdag", 6}, {"søndag", 0}, {"man.", 1}, {"ons.", 3}, {"fre.", 5}, {"lør.", 6}, {"søn.", 0}},
		[]amountOf{{"for 1 sekund siden", 0, -1}, {"om 1 sekund", 0, 1}, {"for 2 sekunder siden", 0, -2}, {"om 2 sekunder", 0, 2}, {"for # sekunder siden", 0, -1}, {"om # sekunder", 0, 1}, {"for ## sekunder siden", 0, -1}, {"om ## sekunder", 0, 1}, {"for 1 minut siden", 1, -1}, {"om 1 minut", 1, 1}, {"for 2 minutter siden", 1, -2}, {"om 2 minutter", 1, 2}, {"for # minutter siden", 1, -1}, {"om # minutter", 1, 1}, {"for ## minutter siden", 1, -1}, {"om ## minutter", 1, 1}, {"for 1 time siden", 2, -1}, {"om 1 time", 2, 1}, {"for 2 timer siden", 2, -2}, {"om 2 timer", 2, 2}, {"for # timer siden", 2, -1}, {"om # timer", 2, 1}, {"for ## timer siden", 2, -1}, {"om ## timer", 2, 1}, {"for 1 dag siden", 3, -1}, {"om 1 dag", 3, 1}, {"for 2 dage siden", 3, -2}, {"om 2 dage", 3, 2}, {"for # dage siden", 3, -1}, {"om # dage", 3, 1}, {"for ## dage siden", 3, -1}, {"om ## dage", 3, 1}, {"for 1 uge siden", 4, -1}, {"om 1 uge", 4, 1}, {"for 2 uger siden", 4, -2}, {"om 2 uger", 4, 2}, {"for # uger siden", 4, -1}, {"om # uger", 4, 1}, {"for ## uger siden", 4, -1}, {"om ## uger", 4, 1}, {"for 1 måned siden", 5, -1}, {"om 1 måned", 5, 1}, {"for 2 måneder siden", 5, -2}, {"om 2 måneder", 5, 2}, {"for # måneder siden", 5, -1}, {"om # måneder", 5, 1}, {"for ## måneder siden", 5, -1}, {"om ## måneder", 5, 1}, {"for 1 år siden", 6, -1}, {"om 1 år", 6, 1}, {"for 2 år siden", 6, -2}, {"om 2 år", 6, 2}, {"for # år siden", 6, -1}, {"om # år", 6, 1}, {"for ## år siden", 6, -1}, {"om ## år", 6, 1}}},
	{"dav",
		[]nameOf{{"Mori ghwa imbiri", 1}, {"Imb", 1}, {"Mori ghwa kawi", 2}, {"Mori ghwa kadadu", 3}, {"Mori ghwa kana", 4}, {"Mori ghwa kasanu", 5}, {"Mori ghwa karandadu", 6}, {"Kar", 6}, {"Mori ghwa mfungade", 7}, {"Mfu", 7}, {"Mori ghwa wunyanya", 8}, {"Wun", 8}, {"Mori ghwa ikenda", 9}, {"Ike", 9}, {"Mori ghwa ikumi", 10}, {"Iku", 10}, {"Mori ghwa ikumi na imweri", 11}, {"Imw", 11}, {"Mori ghwa ikumi na iwi", 12}, {"Iwi", 12}},
		[]nameOf{{"# Mori ghwa imbiri ##", 1}, {"# Mori ghwa kawi ##", 2}, {"# Mori ghwa kadadu ##", 3}, {"# Mori ghwa kana ##", 4}, {"# Mori ghwa kasanu ##", 5}, {"# Mori ghwa karandadu ##", 6}, {"# Mori ghwa mfungade ##", 7}, {"# Mori ghwa wunyanya ##", 8}, {"# Mori ghwa ikenda ##", 9}, {"# Mori ghwa ikumi ##", 10}, {"# Mori ghwa ikumi na imweri ##", 11}, {"# Mori ghwa ikumi na iwi ##", 12}},
		[]nameOf{{"Kuramuka jimweri", 1}, {"Kuramuka kawi", 2}, {"Kuramuka kadadu", 3}, {"Kuramuka kana", 4}, {"Kuramuka kasanu", 5}, {"Kifula nguwo", 6}, {"Ituku ja jumwa", 0}, {"Jim", 1}, {"Ngu", 6}, {"Jum", 0}},
		[]amountOf{}},
	{"de",
		[]nameOf{{"Januar", 1}, {"Jan.", 1}, {"Februar", 2}, {"Feb.", 2}, {"März", 3}, {"April", 4}, {"Apr.", 4}, {"Mai", 5}, {"Juni", 6}, {"Juli", 7}, {"August", 8}, {"Aug.", 8}, {"September", 9}, {"Sept.", 9}, {"Oktober", 10}, {"Okt.", 10}, {"November", 11}, {"Nov.", 11}, {"Dezember", 12}, {"Dez.", 12}},
		[]nameOf{{"#. Januar ##", 1}, {"#. Februar ##", 2}, {"#. März ##", 3}, {"#. April ##", 4}, {"#. Mai ##", 5}, {"#. Juni ##", 6}, {"#. Juli ##", 7}, {"#. August ##", 8}, {"#. September ##", 9}, {"#. Oktober ##", 10}, {"#. November ##", 11}, {"#. Dezember ##", 12}},
		[]nameOf{{"Montag", 1}, {"Dienstag", 2}, {"Mittwoch", 3}, {"Donnerstag", 4}, {"Freitag", 5}, {"Samstag", 6}, {"Sonntag", 0}, {"Mo", 1}, {"Di", 2}, {"Mi", 3}, {"Do", 4}, {"Fr", 5}, {"Sa", 6}, {"So", 0}},
		[]amountOf{{"vor 1 Sekunde", 0, -1}, {"in 1 Sekunde", 0, 1}, {"vor 2 Sekunden", 0, -2}, {"in 2 Sekunden", 0, 2}, {"vor # Sekunden", 0, -1}, {"in # Sekunden", 0, 1}, {"vor ## Sekunden", 0, -1}, {"in ## Sekunden", 0, 1}, {"vor 1 Minute", 1, -1}, {"in 1 Minute", 1, 1}, {"vor 2 Minuten", 1, -2}, {"in 2 Minuten", 1, 2}, {"vor # Minuten", 1, -1}, {"in # Minuten", 1, 1}, {"vor ## Minuten", 1, -1}, {"in ## Minuten", 1, 1}, {"vor 1 Stunde", 2, -1}, {"in 1 Stunde", 2, 1}, {"vor 2 Stunden", 2, -2}, {"in 2 Stunden", 2, 2}, {"vor # Stunden", 2, -1}, {"in # Stunden", 2, 1}, {"vor ## Stunden", 2, -1}, {"in ## Stunden", 2, 1}, {"vor 1 Tag", 3, -1}, {"in 1 Tag", 3, 1}, {"vor 2 Tagen", 3, -2}, {"in 2 Tagen", 3, 2}, {"vor # Tagen", 3, -1}, {"in # Tagen", 3, 1}, {"vor ## Tagen", 3, -1}, {"in ## Tagen", 3, 1}, {"vor 1 Woche", 4, -1}, {"in 1 Woche", 4, 1}, {"vor 2 Wochen", 4, -2}, {"in 2 Wochen", 4, 2}, {"vor # Wochen", 4, -1}, {"in # Wochen", 4, 1}, {"vor ## Wochen", 4, -1}, {"in ## Wochen", 4, 1}, {"vor 1 Monat", 5, -1}, {"in 1 Monat", 5, 1}, {"vor 2 Monaten", 5, -2}, {"in 2 Monaten", 5, 2}, {"vor # Monaten", 5, -1}, {"in # Monaten", 5, 1}, {"vor ## Monaten", 5, -1}, {"in ## Monaten", 5, 1}, {"vor 1 Jahr", 6, -1}, {"in 1 Jahr", 6, 1}, {"vor 2 Jahren", 6, -2}, {"in 2 Jahren", 6, 2}, {"vor # Jahren", 6, -1}, {"in # Jahren", 6, 1}, {"vor ## Jahren", 6, -1}, {"in ## Jahren", 6, 1}}},
	{"dje",
		[]nameOf{{"Žanwiye", 1}, {"Žan", 1}, {"Feewiriye", 2}, {"Fee", 2}, {"Marsi", 3}, {"Mar", 3}, {"Awiril", 4}, {"Awi", 4}, {"Me", 5}, {"Žuweŋ", 6}, {"Žuw", 6}, {"Žuyye", 7}, {"Žuy", 7}, {"Ut", 8}, {"Sektanbur", 9}, {"Sek", 9}, {"Oktoobur", 10}, {"Okt", 10}, {"Noowanbur", 11}, {"Noo", 11}, {"Deesanbur", 12}, {"Dee", 12}},
		[]nameOf{{"# Žanwiye ##", 1}, {"# Feewiriye ##", 2}, {"# Marsi ##", 3}, {"# Awiril ##", 4}, {"# Me ##", 5}, {"# Žuweŋ ##", 6}, {"# Žuyye ##", 7}, {"# Ut ##", 8}, {"# Sektanbur ##", 9}, {"# Oktoobur ##", 10}, {"# Noowanbur ##", 11}, {"# Deesanbur ##", 12}},
		[]nameOf{{"Atinni", 1}, {"Atalaata", 2}, {"Alarba", 3}, {"Alhamisi", 4}, {"Alzuma", 5}, {"Asibti", 6}, {"Alhadi", 0}, {"Ati", 1}, {"Ata", 2}, {"Ala", 3}, {"Alm", 4}, {"Alz", 5}, {"Asi", 6}, {"Alh", 0}},
		[]amountOf{}},
	{"dsb",
		[]nameOf{{"januara", 1}, {"januar", 1}, {"jan.", 1}, {"februara", 2}, {"februar", 2}, {"feb.", 2}, {"měrca", 3}, {"měrc", 3}, {"měr.", 3}, {"apryla", 4}, {"apryl", 4}, {"apr.", 4}, {"maja", 5}, {"maj", 5}, {"maj.", 5}, {"junija", 6}, {"junij", 6}, {"jun.", 6}, {"julija", 7}, {"julij", 7}, {"jul.", 7}, {"awgusta", 8}, {"awgust", 8}, {"awg.", 8}, {"septembra", 9}, {"september", 9}, {"sep.", 9}, {"oktobra", 10}, {"oktober", 10}, {"okt.", 10}, {"nowembra", 11}, {"nowember", 11}, {"decembra", 12}, {"december", 12}, {"dec.", 12}},
		[]nameOf{{"#. januara ##", 1}, {"#. februara ##", 2}, {"#. měrca ##", 3}, {"#. apryla ##", 4}, {"#. maja ##", 5}, {"#. junija ##", 6}, {"#. julija ##", 7}, {"#. awgusta ##", 8}, {"#. septembra ##", 9}, {"#. oktobra ##", 10}, {"#. nowembra ##", 11}, {"#. decembra ##", 12}},
		[]nameOf{{"pónjeźele", 1}, {"wałtora", 2}, {"srjoda", 3}, {"stwórtk", 4}, {"pětk", 5}, {"sobota", 6}, {"njeźela", 0}, {"pón", 1}, {"wał", 2}, {"srj", 3}, {"stw", 4}, {"pět", 5}, {"sob", 6}, {"nje", 0}},
		[]amountOf{{"pśed 1 sekundu", 0, -1}, {"za 1 sekundu", 0, 1}, {"pśed # sekundami", 0, -1}, {"za # sekundow", 0, 1}, {"pśed ## sekundami", 0, -1}, {"za ## sekundow", 0, 1}, {"pśed 1 minutu", 1, -1}, {"za 1 minutu", 1, 1}, {"pśed # minutami", 1, -1}, {"za # minutow", 1, 1}, {"pśed ## minutami", 1, -1}, {"za ## minutow", 1, 1}, {"pśed 1 góźinu", 2, -1}, {"za 1 góźinu", 2, 1}, {"pśed # góźinami", 2, -1}, {"za # góźin", 2, 1}, {"pśed ## góźinami", 2, -1}, {"za ## góźin", 2, 1}, {"pśed 1 dnjom", 3, -1}, {"za 1 źeń", 3, 1}, {"pśed # dnjami", 3, -1}, {"za # dnjow", 3, 1}, {"pśed ## dnjami", 3, -1}, {"za ## dnjow", 3, 1}, {"pśed 1 tyźenjom", 4, -1}, {"za 1 tyźeń", 4, 1}, {"pśed # tyźenjami", 4, -1}, {"za # tyźenjow", 4, 1}, {"pśed ## tyźenjami", 4, -1}, {"za ## tyźenjow", 4, 1}, {"pśed 1 mjasecom", 5, -1}, {"za 1 mjasec", 5, 1}, {"pśed # mjasecami", 5, -1}, {"za # mjasecow", 5, 1}, {"pśed ## mjasecami", 5, -1}, {"za ## mjasecow", 5, 1}, {"pśed 1 lětom", 6, -1}, {"za 1 lěto", 6, 1}, {"pśed # lětami", 6, -1}, {"za # lět", 6, 1}, {"pśed ## lětami", 6, -1}, {"za ## lět", 6, 1}}},
	{"dua",
		[]nameOf{{"dimɔ́di", 1}, {"di", 1}, {"ŋgɔndɛ", 2}, {"ŋgɔn", 2}, {"sɔŋɛ", 3}, {"sɔŋ", 3}, {"diɓáɓá", 4}, {"diɓ", 4}, {"emiasele", 5}, {"emi", 5}, {"esɔpɛsɔpɛ", 6}, {"esɔ", 6}, {"madiɓɛ́díɓɛ́", 7}, {"mad", 7}, {"diŋgindi", 8}, {"diŋ", 8}, {"nyɛtɛki", 9}, {"nyɛt", 9}, {"mayésɛ́", 10}, {"may", 10}, {"tiníní", 11}, {"tin", 11}, {"eláŋgɛ́", 12}, {"elá", 12}},
		[]nameOf{{"# dimɔ́di ##", 1}, {"# ŋgɔndɛ ##", 2}, {"# sɔŋɛ ##", 3}, {"# diɓáɓá ##", 4}, {"# emiasele ##", 5}, {"# esɔpɛsɔpɛ ##", 6}, {"# madiɓɛ́díɓɛ́ ##", 7}, {"# diŋgindi ##", 8}, {"# nyɛtɛki ##", 9}, {"# mayésɛ́ ##", 10}, {"# tiníní ##", 11}, {"# eláŋgɛ́ ##", 12}},
		[]nameOf{{"mɔ́sú", 1}, {"kwasú", 2}, {"mukɔ́sú", 3}, {"ŋgisú", 4}, {"ɗónɛsú", 5}, {"esaɓasú", 6}, {"éti", 0}, {"mɔ́s", 1}, {"kwa", 2}, {"muk", 3}, {"ŋgi", 4}, {"ɗón", 5}, {"esa", 6}, {"ét", 0}},
		[]amountOf{}},
	{"dyo",
		[]nameOf{{"Sanvie", 1}, {"Sa", 1}, {"Fébirie", 2}, {"Fe", 2}, {"Mars", 3}, {"Ma", 3}, {"Aburil", 4}, {"Ab", 4}, {"Mee", 5}, {"Me", 5}, {"Sueŋ", 6}, {"Su", 6}, {"Súuyee", 7}, {"Sú", 7}, {"Ut", 8}, {"Settembar", 9}, {"Se", 9}, {"Oktobar", 10}, {"Ok", 10}, {"Novembar", 11}, {"No", 11}, {"Disambar", 12}, {"De", 12}},
		[]nameOf{{"# Sanvie ##", 1}, {"# Fébirie ##", 2}, {"# Mars ##", 3}, {"# Aburil ##", 4}, {"# Mee ##", 5}, {"# Sueŋ ##", 6}, {"# Súuyee ##", 7}, {"# Ut ##", 8}, {"# Settembar ##", 9}, {"# Oktobar ##", 10}, {"# Novembar ##", 11}, {"# Disambar ##", 12}},
		[]nameOf{{"Teneŋ", 1}, {"Talata", 2}, {"Alarbay", 3}, {"Aramisay", 4}, {"Arjuma", 5}, {"Sibiti", 6}, {"Dimas", 0}, {"Ten", 1}, {"Tal", 2}, {"Ala", 3}, {"Ara", 4}, {"Arj", 5}, {"Sib", 6}, {"Dim", 0}},
		[]amountOf{}},
	{"dz",
		[]nameOf{{"ཟླ་དངཔ་", 1}, {"༡", 1}, {"ཟླ་གཉིས་པ་", 2}, {"༢", 2}, {"ཟླ་གསུམ་པ་", 3}, {"༣", 3}, {"ཟླ་བཞི་པ་", 4}, {"༤", 4}, {"ཟླ་ལྔ་པ་", 5}, {"༥", 5}, {"ཟླ་དྲུག་པ", 6}, {"༦", 6}, {"ཟླ་བདུན་པ་", 7}, {"༧", 7}, {"ཟླ་བརྒྱད་པ་", 8}, {"༨", 8}, {"ཟླ་དགུ་པ་", 9}, {"༩", 9}, {"ཟླ་བཅུ་པ་", 10}, {"༡༠", 10}, {"ཟླ་བཅུ་གཅིག་པ་", 11}, {"༡༡", 11}, {"ཟླ་བཅུ་གཉིས་པ་", 12}, {"12", 12}},
		[]nameOf{},
		[]nameOf{{"གཟའ་མིག་དམར་", 1}, {"གཟའ་ལྷག་པ་", 2}, {"གཟའ་ཕུར་བུ་", 3}, {"གཟའ་པ་སངས་", 4}, {"གཟའ་སྤེན་པ་", 5}, {"གཟའ་ཉི་མ་", 6}, {"གཟའ་ཟླ་བ་", 0}, {"མིར་", 1}, {"ལྷག་", 2}, {"ཕུར་", 3}, {"སངས་", 4}, {"སྤེན་", 5}, {"ཉི་", 6}, {"ཟླ་", 0}},
		[]amountOf{{"སྐར་ཆ་ 1 ཧེ་མ་", 0, -1}, {"སྐར་ཆ་ 1 ནང་", 0, 1}, {"སྐར་ཆ་ 2 ཧེ་མ་", 0, -2}, {"སྐར་ཆ་ 2 ནང་", 0, 2}, {"སྐར་ཆ་ # ཧེ་མ་", 0, -1}, {"སྐར་ཆ་ # ནང་", 0, 1}, {"སྐར་ཆ་ ## ཧེ་མ་", 0, -1}, {"སྐར་ཆ་ ## ནང་", 0, 1}, {"སྐར་མ་ 1 ཧེ་མ་", 1, -1}, {"སྐར་མ་ 1 ནང་", 1, 1}, {"སྐར་མ་ 2 ཧེ་མ་", 1, -2}, {"སྐར་མ་ 2 ནང་", 1, 2}, {"སྐར་མ་ # ཧེ་མ་", 1, -1}, {"སྐར་མ་ # ནང་", 1, 1}, {"སྐར་མ་ ## ཧེ་མ་", 1, -1}, {"སྐར་མ་ ## ནང་", 1, 1}, {"ཆུ་ཚོད་ 1 ཧེ་མ་", 2, -1}, {"ཆུ་ཚོད་ 1 ནང་", 2, 1}, {"ཆུ་ཚོད་ 2 ཧེ་མ་", 2, -2}, {"ཆུ་ཚོད་ 2 ནང་", 2, 2}, {"ཆུ་ཚོད་ # ཧེ་མ་", 2, -1}, {"ཆུ་ཚོད་ # ནང་", 2, 1}, {"ཆུ་ཚོད་ ## ཧེ་མ་", 2, -1}, {"ཆུ་ཚོད་ ## ནང་", 2, 1}, {"ཉིནམ་ 1 ཧེ་མ་", 3, -1}, {"ཉིནམ་ 1 ནང་", 3, 1}, {"ཉིནམ་ 2 ཧེ་མ་", 3, -2}, {"ཉིནམ་ 2 ནང་", 3, 2}, {"ཉིནམ་ # ཧེ་མ་", 3, -1}, {"ཉིནམ་ # ནང་", 3, 1}, {"ཉིནམ་ ## ཧེ་མ་", 3, -1}, {"ཉིནམ་ ## ནང་", 3, 1}, {"བངུན་ཕྲག་ 1 ཧེ་མ་", 4, -1}, {"བངུན་ཕྲག་ 1 ནང་", 4, 1}, {"བངུན་ཕྲག་ 2 ཧེ་མ་", 4, -2}, {"བངུན་ཕྲག་ 2 ནང་", 4, 2}, {"བངུན་ཕྲག་ # ཧེ་མ་", 4, -1}, {"བངུན་ཕྲག་ # ནང་", 4, 1}, {"བངུན་ཕྲག་ ## ཧེ་མ་", 4, -1}, {"བངུན་ཕྲག་ ## ནང་", 4, 1}, {"ཟླཝ་ 1 ཧེ་མ་", 5, -1}, {"ཟླཝ་ 1 ནང་", 5, 1}, {"ཟླཝ་ 2 ཧེ་མ་", 5, -2}, {"ཟླཝ་ 2 ནང་", 5, 2}, {"ཟླཝ་ # ཧེ་མ་", 5, -1}, {"ཟླཝ་ # ནང་", 5, 1}, {"ཟླཝ་ ## ཧེ་མ་", 5, -1}, {"ཟླཝ་ ## ནང་", 5, 1}, {"ལོ་འཁོར་ 1 ཧེ་མ་", 6, -1}, {"ལོ་འཁོར་ 1 ནང་", 6, 1}, {"ལོ་འཁོར་ 2 ཧེ་མ་", 6, -2}, {"ལོ་འཁོར་ 2 ནང་", 6, 2}, {"ལོ་འཁོར་ # ཧེ་མ་", 6, -1}, {"ལོ་འཁོར་ # ནང་", 6, 1}, {"ལོ་འཁོར་ ## ཧེ་མ་", 6, -1}, {"ལོ་འཁོར་ ## ནང་", 6, 1}}},
	{"ebu",
		[]nameOf{{"Mweri wa mbere", 1}, {"Mbe", 1}, {"Mweri wa kaĩri", 2}, {"Kai", 2}, {"Mweri wa kathatũ", 3}, {"Kat", 3}, {"Mweri wa kana", 4}, {"Kan", 4}, {"Mweri wa gatano", 5}, {"Gat", 5}, {"Mweri wa gatantatũ", 6}, {"Gan", 6}, {"Mweri wa mũgwanja", 7}, {"Mug", 7}, {"Mweri wa kanana", 8}, {"Knn", 8}, {"Mweri wa kenda", 9}, {"Ken", 9}, {"Mweri wa ikũmi", 10}, {"Iku", 10}, {"Mweri wa ikũmi na ũmwe", 11}, {"Imw", 11}, {"Mweri wa ikũmi na Kaĩrĩ", 12}, {"Igi", 12}},
		[]nameOf{{"# Mweri wa mbere ##", 1}, {"# Mweri wa kaĩri ##", 2}, {"# Mweri wa kathatũ ##", 3}, {"# Mweri wa kana ##", 4}, {"# Mweri wa gatano ##", 5}, {"# Mweri wa gatantatũ ##", 6}, {"# Mweri wa mũgwanja ##", 7}, {"# Mweri wa kanana ##", 8}, {"# Mweri wa kenda ##", 9}, {"# Mweri wa ikũmi ##", 10}, {"# Mweri wa ikũmi na ũmwe ##", 11}, {"# Mweri wa ikũmi na Kaĩrĩ ##", 12}},
		[]nameOf{{"Njumatatu", 1}, {"Njumaine", 2}, {"Njumatano", 3}, {"Aramithi", 4}, {"Njumaa", 5}, {"NJumamothii", 6}, {"Kiumia", 0}, {"Tat", 1}, {"Ine", 2}, {"Tan", 3}, {"Arm", 4}, {"Maa", 5}, {"NMM", 6}, {"Kma", 0}},
		[]amountOf{}},
	{"ee",
		[]nameOf{{"dzove", 1}, {"dzv", 1}, {"dzodze", 2}, {"dzd", 2}, {"tedoxe", 3}, {"ted", 3}, {"afɔfĩe", 4}, {"afɔ", 4}, {"dam", 5}, {"masa", 6}, {"mas", 6}, {"siamlɔm", 7}, {"sia", 7}, {"deasiamime", 8}, {"dea", 8}, {"anyɔnyɔ", 9}, {"any", 9}, {"kele", 10}, {"kel", 10}, {"adeɛmekpɔxe", 11}, {"ade", 11}, {"dzome", 12}, {"dzm", 12}},
		[]nameOf{},
		[]nameOf{{"dzoɖa", 1}, {"blaɖa", 2}, {"kuɖa", 3}, {"yawoɖa", 4}, {"fiɖa", 5}, {"memleɖa", 6}, {"kɔsiɖa", 0}, {"dzo", 1}, {"bla", 2}, {"kuɖ", 3}, {"yaw", 4}, {"fiɖ", 5}, {"mem", 6}, {"kɔs", 0}},
		[]amountOf{{"sekend 1 si va yi", 0, -1}, {"le sekend 1 me", 0, 1}, {"sekend 2 si wo va yi", 0, -2}, {"le sekend 2 wo me", 0, 2}, {"sekend # si wo va yi", 0, -1}, {"le sekend # wo me", 0, 1}, {"sekend ## si wo va yi", 0, -1}, {"le sekend ## wo me", 0, 1}, {"aɖabaƒoƒo 1 si va yi", 1, -1}, {"le aɖabaƒoƒo 1 me", 1, 1}, {"aɖabaƒoƒo 2 si wo va yi", 1, -2}, {"le aɖabaƒoƒo 2 wo me", 1, 2}, {"aɖabaƒoƒo # si wo va yi", 1, -1}, {"le aɖabaƒoƒo # wo me", 1, 1}, {"aɖabaƒoƒo ## si wo va yi", 1, -1}, {"le aɖabaƒoƒo ## wo me", 1, 1}, {"gaƒoƒo 1 si va yi", 2, -1}, {"le gaƒoƒo 1 me", 2, 1}, {"gaƒoƒo 2 si wo va yi", 2, -2}, {"le gaƒoƒo 2 wo me", 2, 2}, {"gaƒoƒo # si wo va yi", 2, -1}, {"le gaƒoƒo # wo me", 2, 1}, {"gaƒoƒo ## si wo va yi", 2, -1}, {"le gaƒoƒo ## wo me", 2, 1}, {"ŋkeke 1 si va yi", 3, -1}, {"le ŋkeke 1 me", 3, 1}, {"ŋkeke 2 si wo va yi", 3, -2}, {"le ŋkeke 2 wo me", 3, 2}, {"ŋkeke # si wo va yi", 3, -1}, {"le ŋkeke # wo me", 3, 1}, {"ŋkeke ## si wo va yi", 3, -1}, {"le ŋkeke ## wo me", 3, 1}, {"kɔsiɖa 1 si va yi", 4, -1}, {"le kɔsiɖa 1 me", 4, 1}, {"kɔsiɖa 2 si wo va yi", 4, -2}, {"le kɔsiɖa 2 wo me", 4, 2}, {"kɔsiɖa # si wo va yi", 4, -1}, {"le kɔsiɖa # wo me", 4, 1}, {"kɔsiɖa ## si wo va yi", 4, -1}, {"le kɔsiɖa ## wo me", 4, 1}, {"ɣleti 1 si va yi", 5, -1}, {"le ɣleti 1 me", 5, 1}, {"ɣleti 2 si wo va yi", 5, -2}, {"le ɣleti 2 wo me", 5, 2}, {"ɣleti # si wo va yi", 5, -1}, {"le ɣleti # wo me", 5, 1}, {"ɣleti ## si wo va yi", 5, -1}, {"le ɣleti ## wo me", 5, 1}, {"ƒe 1 si va yi", 6, -1}, {"le ƒe 1 me", 6, 1}, {"ƒe 2 si wo va yi", 6, -2}, {"le ƒe 2 me", 6, 2}, {"ƒe # si wo va yi", 6, -1}, {"le ƒe # me", 6, 1}, {"ƒe ## si wo va yi", 6, -1}, {"le ƒe ## me", 6, 1}}},
	{"el",
		[]nameOf{{"Ιανουαρίου", 1}, {"Ιαν", 1}, {"Φεβρουαρίου", 2}, {"Φεβ", 2}, {"Μαρτίου", 3}, {"Μαρ", 3}, {"Απριλίου", 4}, {"Απρ", 4}, {"Μαΐου", 5}, {"Μαΐ", 5}, {"Ιουνίου", 6}, {"Ιουν", 6}, {"Ιουλίου", 7}, {"Ιουλ", 7}, {"Αυγούστου", 8}, {"Αυγ", 8}, {"Σεπτεμβρίου", 9}, {"Σεπ", 9}, {"Οκτωβρίου", 10}, {"Οκτ", 10}, {"Νοεμβρίου", 11}, {"Νοε", 11}, {"Δεκεμβρίου", 12}, {"Δεκ", 12}},
		[]nameOf{{"# Ιανουαρίου ##", 1}, {"# Φεβρουαρίου ##", 2}, {"# Μαρτίου ##", 3}, {"# Απριλίου ##", 4}, {"# Μαΐου ##", 5}, {"# Ιουνίου ##", 6}, {"# Ιουλίου ##", 7}, {"# Αυγούστου ##", 8}, {"# Σεπτεμβρίου ##", 9}, {"# Οκτωβρίου ##", 10}, {"# Νοεμβρίου ##", 11}, {"# Δεκεμβρίου ##", 12}},
		[]nameOf{{"Δευτέρα", 1}, {"Τρίτη", 2}, {"Τετάρτη", 3}, {"Πέμπτη", 4}, {"Παρασκευή", 5}, {"Σάββατο", 6}, {"Κυριακή", 0}, {"Δευ", 1}, {"Τρί", 2}, {"Τετ", 3}, {"Πέμ", 4}, {"Παρ", 5}, {"Σάβ", 6}, {"Κυρ", 0}},
		[]amountOf{{"πριν από 1 δευτερόλεπτο", 0, -1}, {"σε 1 δευτερόλεπτο", 0, 1}, {"πριν από 2 δευτερόλεπτα", 0, -2}, {"σε 2 δευτερόλεπτα", 0, 2}, {"πριν από # δευτερόλεπτα", 0, -1}, {"σε # δευτερόλεπτα", 0, 1}, {"πριν από ## δευτερόλεπτα", 0, -1}, {"σε ## δευτερόλεπτα", 0, 1}, {"πριν από 1 λεπτό", 1, -1}, {"σε 1 λεπτό", 1, 1}, {"πριν από 2 λεπτά", 1, -2}, {"σε 2 λεπτά", 1, 2}, {"πριν από # λεπτά", 1, -1}, {"σε # λεπτά", 1, 1}, {"πριν από ## λεπτά", 1, -1}, {"σε ## λεπτά", 1, 1}, {"πριν από 1 ώρα", 2, -1}, {"σε 1 ώρα", 2, 1}, {"πριν από 2 ώρες", 2, -2}, {"σε 2 ώρες", 2, 2}, {"πριν από # ώρες", 2, -1}, {"σε # ώρες", 2, 1}, {"πριν από ## ώρες", 2, -1}, {"σε ## ώρες", 2, 1}, {"πριν από 1 ημέρα", 3, -1}, {"σε 1 ημέρα", 3, 1}, {"πριν από 2 ημέρες", 3, -2}, {"σε 2 ημέρες", 3, 2}, {"πριν από # ημέρες", 3, -1}, {"σε # ημέρες", 3, 1}, {"πριν από ## ημέρες", 3, -1}, {"σε ## ημέρες", 3, 1}, {"πριν από 1 εβδομάδα", 4, -1}, {"σε 1 εβδομάδα", 4, 1}, {"πριν από 2 εβδομάδες", 4, -2}, {"σε 2 εβδομάδες", 4, 2}, {"πριν από # εβδομάδες", 4, -1}, {"σε # εβδομάδες", 4, 1}, {"πριν από ## εβδομάδες", 4, -1}, {"σε ## εβδομάδες", 4, 1}, {"πριν από 1 μήνα", 5, -1}, {"σε 1 μήνα", 5, 1}, {"πριν από 2 μήνες", 5, -2}, {"σε 2 μήνες", 5, 2}, {"πριν από # μήνες", 5, -1}, {"σε # μήνες", 5, 1}, {"πριν από ## μήνες", 5, -1}, {"σε ## μήνες", 5, 1}, {"πριν από 1 έτος", 6, -1}, {"σε 1 έτος", 6, 1}, {"πριν από 2 έτη", 6, -2}, {"σε 2 έτη", 6, 2}, {"πριν από # έτη", 6, -1}, {"σε # έτη", 6, 1}, {"πριν από ## έτη", 6, -1}, {"σε ## έτη", 6, 1}}},
	{"en",
		[]nameOf{{"January", 1}, {"Jan", 1}, {"February", 2}, {"Feb", 2}, {"March", 3}, {"Mar", 3}, {"April", 4}, {"Apr", 4}, {"May", 5}, {"June", 6}, {"Jun", 6}, {"July", 7}, {"Jul", 7}, {"August", 8}, {"Aug", 8}, {"September", 9}, {"Sep", 9}, {"October", 10}, {"Oct", 10}, {"November", 11}, {"Nov", 11}, {"December", 12}, {"Dec", 12}},
		[]nameOf{{"January #, ##", 1}, {"February #, ##", 2}, {"March #, ##", 3}, {"April #, ##", 4}, {"May #, ##", 5}, {"June #, ##", 6}, {"July #, ##", 7}, {"August #, ##", 8}, {"September #, ##", 9}, {"October #, ##", 10}, {"November #, ##", 11}, {"December #, ##", 12}},
		[]nameOf{{"Monday", 1}, {"Tuesday", 2}, {"Wednesday", 3}, {"Thursday", 4}, {"Friday", 5}, {"Saturday", 6}, {"Sunday", 0}, {"Mon", 1}, {"Tue", 2}, {"Wed", 3}, {"Thu", 4}, {"Fri", 5}, {"Sat", 6}, {"Sun", 0}},
		[]amountOf{{"1 second ago", 0, -1}, {"in 1 second", 0, 1}, {"2 seconds ago", 0, -2}, {"in 2 seconds", 0, 2}, {"# seconds ago", 0, -1}, {"in # seconds", 0, 1}, {"## seconds ago", 0, -1}, {"in ## seconds", 0, 1}, {"1 minute ago", 1, -1}, {"in 1 minute", 1, 1}, {"2 minutes ago", 1, -2}, {"in 2 minutes", 1, 2}, {"# minutes ago", 1, -1}, {"in # minutes", 1, 1}, {"## minutes ago", 1, -1}, {"in ## minutes", 1, 1}, {"1 hour ago", 2, -1}, {"in 1 hour", 2, 1}, {"2 hours ago", 2, -2}, {"in 2 hours", 2, 2}, {"# hours ago", 2, -1}, {"in # hours", 2, 1}, {"## hours ago", 2, -1}, {"in ## hours", 2, 1}, {"1 day ago", 3, -1}, {"in 1 day", 3, 1}, {"2 days ago", 3, -2}, {"in 2 days", 3, 2}, {"# days ago", 3, -1}, {"in # days", 3, 1}, {"## days ago", 3, -1}, {"in ## days", 3, 1}, {"1 week ago", 4, -1}, {"in 1 week", 4, 1}, {"2 weeks ago", 4, -2}, {"in 2 weeks", 4, 2}, {"# weeks ago", 4, -1}, {"in # weeks", 4, 1}, {"## weeks ago", 4, -1}, {"in ## weeks", 4, 1}, {"1 month ago", 5, -1}, {"in 1 month", 5, 1}, {"2 months ago", 5, -2}, {"in 2 months", 5, 2}, {"# months ago", 5, -1}, {"in # months", 5, 1}, {"## months ago", 5, -1}, {"in ## months", 5, 1}, {"1 year ago", 6, -1}, {"in 1 year", 6, 1}, {"2 years ago", 6, -2}, {"in 2 years", 6, 2}, {"# years ago", 6, -1}, {"in # years", 6, 1}, {"## years ago", 6, -1}, {"in ## years", 6, 1}}},
	{"eo",
		[]nameOf{{"Januaro", 1}, {"Jan", 1}, {"Februaro", 2}, {"Feb", 2}, {"Marto", 3}, {"Mar", 3}, {"Aprilo", 4}, {"Apr", 4}, {"Majo", 5}, {"Maj", 5}, {"Junio", 6}, {"Jun", 6}, {"Julio", 7}, {"Jul", 7}, {"Aŭgusto", 8}, {"Aŭg", 8}, {"Septembro", 9}, {"Sep", 9}, {"Oktobro", 10}, {"Okt", 10}, {"Novembro", 11}, {"Nov", 11}, {"Decembro", 12}, {"Dec", 12}},
		[]nameOf{{"##-Januaro-#", 1}, {"##-Februaro-#", 2}, {"##-Marto-#", 3}, {"##-Aprilo-#", 4}, {"##-Majo-#", 5}, {"##-Junio-#", 6}, {"##-Julio-#", 7}, {"##-Aŭgusto-#", 8}, {"##-Septembro-#", 9}, {"##-Oktobro-#", 10}, {"##-Novembro-#", 11}, {"##-Decembro-#", 12}},
		[]nameOf{{"lundo", 1}, {"mardo", 2}, {"merkredo", 3}, {"ĵaŭdo", 4}, {"vendredo", 5}, {"sabato", 6}, {"dimanĉo", 0}, {"lu", 1}, {"ma", 2}, {"me", 3}, {"ĵa", 4}, {"ve", 5}, {"sa", 6}, {"di", 0}},
		[]amountOf{}},
	{"es",
		[]nameOf{{"enero", 1}, {"ene", 1}, {"febrero", 2}, {"feb", 2}, {"marzo", 3}, {"abril", 4}, {"abr", 4}, {"mayo", 5}, {"may", 5}, {"junio", 6}, {"jun", 6}, {"julio", 7}, {"jul", 7}, {"agosto", 8}, {"ago", 8}, {"septiembre", 9}, {"sept", 9}, {"octubre", 10}, {"oct", 10}, {"noviembre", 11}, {"nov", 11}, {"diciembre", 12}, {"dic", 12}},
		[]nameOf{{"# de enero de ##", 1}, {"# de febrero de ##", 2}, {"# de marzo de ##", 3}, {"# de abril de ##", 4}, {"# de mayo de ##", 5}, {"# de junio de ##", 6}, {"# de julio de ##", 7}, {"# de agosto de ##", 8}, {"# de septiembre de ##", 9}, {"# de octubre de ##", 10}, {"# de noviembre de ##", 11}, {"# de diciembre de ##", 12}},
		[]nameOf{{"lunes", 1}, {"martes", 2}, {"miércoles", 3}, {"jueves", 4}, {"viernes", 5}, {"sábado", 6}, {"domingo", 0}, {"lun", 1}, {"mié", 3}, {"jue", 4}, {"vie", 5}, {"sáb", 6}, {"dom", 0}},
		[]amountOf{{"hace 1 segundo", 0, -1}, {"dentro de 1 segundo", 0, 1}, {"hace 2 segundos", 0, -2}, {"dentro de 2 segundos", 0, 2}, {"hace # segundos", 0, -1}, {"dentro de # segundos", 0, 1}, {"hace ## segundos", 0, -1}, {"dentro de ## segundos", 0, 1}, {"hace 1 minuto", 1, -1}, {"dentro de 1 minuto", 1, 1}, {"hace 2 minutos", 1, -2}, {"dentro de 2 minutos", 1, 2}, {"hace # minutos", 1, -1}, {"dentro de # minutos", 1, 1}, {"hace ## minutos", 1, -1}, {"dentro de ## minutos", 1, 1}, {"hace 1 hora", 2, -1}, {"dentro de 1 hora", 2, 1}, {"hace 2 horas", 2, -2}, {"dentro de 2 horas", 2, 2}, {"hace # horas", 2, -1}, {"dentro de # horas", 2, 1}, {"hace ## horas", 2, -1}, {"dentro de ## horas", 2, 1}, {"hace 1 día", 3, -1}, {"dentro de 1 día", 3, 1}, {"hace 2 días", 3, -2}, {"dentro de 2 días", 3, 2}, {"hace # días", 3, -1}, {"dentro de # días", 3, 1}, {"hace ## días", 3, -1}, {"dentro de ## días", 3, 1}, {"hace 1 semana", 4, -1}, {"dentro de 1 semana", 4, 1}, {"hace 2 semanas", 4, -2}, {"dentro de 2 semanas", 4, 2}, {"hace # semanas", 4, -1}, {"dentro de # semanas", 4, 1}, {"hace ## semanas", 4, -1}, {"dentro de ## semanas", 4, 1}, {"hace 1 mes", 5, -1}, {"dentro de 1 mes", 5, 1}, {"hace 2 meses", 5, -2}, {"dentro de 2 meses", 5, 2}, {"hace # meses", 5, -1}, {"dentro de # meses", 5, 1}, {"hace ## meses", 5, -1}, {"dentro de ## meses", 5, 1}, {"hace 1 año", 6, -1}, {"dentro de 1 año", 6, 1}, {"hace 2 años", 6, -2}, {"dentro de 2 años", 6, 2}, {"hace # años", 6, -1}, {"dentro de # años", 6, 1}, {"hace ## años", 6, -1}, {"dentro de ## años", 6, 1}}},
	{"et",
		[]nameOf{{"jaanuar", 1}, {"jaan", 1}, {"veebruar", 2}, {"veebr", 2}, {"märts", 3}, {"aprill", 4}, {"apr", 4}, {"mai", 5}, {"juuni", 6}, {"juuli", 7}, {"august", 8}, {"aug", 8}, {"september", 9}, {"sept", 9}, {"oktoober", 10}, {"okt", 10}, {"november", 11}, {"nov", 11}, {"detsember", 12}, {"dets", 12}},
		[]nameOf{{"#. jaanuar ##", 1}, {"#. veebruar ##", 2}, {"#. märts ##", 3}, {"#. aprill ##", 4}, {"#. mai ##", 5}, {"#. juuni ##", 6}, {"#. juuli ##", 7}, {"#. august ##", 8}, {"#. september ##", 9}, {"#. oktoober ##", 10}, {"#. november ##", 11}, {"#. detsember ##", 12}},
		[]nameOf{{"esmaspäev", 1}, {"teisipäev", 2}, {"kolmapäev", 3}, {"neljapäev", 4}, {"reede", 5}, {"laupäev", 6}, {"pühapäev", 0}, {"E", 1}, {"K", 3}, {"N", 4}, {"R", 5}, {"L", 6}, {"P", 0}},
		[]amountOf{{"1 sekundi eest", 0, -1}, {"1 sekundi pärast", 0, 1}, {"2 sekundi eest", 0, -2}, {"2 sekundi pärast", 0, 2}, {"# sekundi eest", 0, -1}, {"# sekundi pärast", 0, 1}, {"## sekundi eest", 0, -1}, {"## sekundi pärast", 0, 1}, {"1 minuti eest", 1, -1}, {"1 minuti pärast", 1, 1}, {"2 minuti eest", 1, -2}, {"2 minuti pärast", 1, 2}, {"# minuti eest", 1, -1}, {"# minuti pärast", 1, 1}, {"## minuti eest", 1, -1}, {"## minuti pärast", 1, 1}, {"1 tunni eest", 2, -1}, {"1 tunni pärast", 2, 1}, {"2 tunni eest", 2, -2}, {"2 tunni pärast", 2, 2}, {"# tunni eest", 2, -1}, {"# tunni pärast", 2, 1}, {"## tunni eest", 2, -1}, {"## tunni pärast", 2, 1}, {"1 päeva eest", 3, -1}, {"1 päeva pärast", 3, 1}, {"2 päeva eest", 3, -2}, {"2 päeva pärast", 3, 2}, {"# päeva eest", 3, -1}, {"# päeva pärast", 3, 1}, {"## päeva eest", 3, -1}, {"## päeva pärast", 3, 1}, {"1 nädala eest", 4, -1}, {"1 nädala pärast", 4, 1}, {"2 nädala eest", 4, -2}, {"2 nädala pärast", 4, 2}, {"# nädala eest", 4, -1}, {"# nädala pärast", 4, 1}, {"## nädala eest", 4, -1}, {"## nädala pärast", 4, 1}, {"1 kuu eest", 5, -1}, {"1 kuu pärast", 5, 1}, {"2 kuu eest", 5, -2}, {"2 kuu pärast", 5, 2}, {"# kuu eest", 5, -1}, {"# kuu pärast", 5, 1}, {"## kuu eest", 5, -1}, {"## kuu pärast", 5, 1}, {"1 aasta eest", 6, -1}, {"1 aasta pärast", 6, 1}, {"2 aasta eest", 6, -2}, {"2 aasta pärast", 6, 2}, {"# aasta eest", 6, -1}, {"# aasta pärast", 6, 1}, {"## aasta eest", 6, -1}, {"## aasta pärast", 6, 1}}},
	{"eu",
		[]nameOf{{"urtarrila", 1}, {"urt.", 1}, {"otsaila", 2}, {"ots.", 2}, {"martxoa", 3}, {"mar.", 3}, {"apirila", 4}, {"api.", 4}, {"maiatza", 5}, {"mai.", 5}, {"ekaina", 6}, {"eka.", 6}, {"uztaila", 7}, {"uzt.", 7}, {"abuztua", 8}, {"abu.", 8}, {"iraila", 9}, {"ira.", 9}, {"urria", 10}, {"urr.", 10}, {"azaroa", 11}, {"aza.", 11}, {"abendua", 12}, {"abe.", 12}},
		[]nameOf{},
		[]nameOf{{"astelehena", 1}, {"asteartea", 2}, {"asteazkena", 3}, {"osteguna", 4}, {"ostirala", 5}, {"larunbata", 6}, {"igandea", 0}, {"al.", 1}, {"ar.", 2}, {"az.", 3}, {"og.", 4}, {"or.", 5}, {"lr.", 6}, {"ig.", 0}},
		[]amountOf{{"duela 1 segundo", 0, -1}, {"1 segundo barru", 0, 1}, {"duela 2 segundo", 0, -2}, {"2 segundo barru", 0, 2}, {"duela # segundo", 0, -1}, {"# segundo barru", 0, 1}, {"duela ## segundo", 0, -1}, {"## segundo barru", 0, 1}, {"duela 1 minutu", 1, -1}, {"1 minutu barru", 1, 1}, {"duela 2 minutu", 1, -2}, {"2 minutu barru", 1, 2}, {"duela # minutu", 1, -1}, {"# minutu barru", 1, 1}, {"duela ## minutu", 1, -1}, {"## minutu barru", 1, 1}, {"duela 1 ordu", 2, -1}, {"1 ordu barru", 2, 1}, {"duela 2 ordu", 2, -2}, {"2 ordu barru", 2, 2}, {"duela # ordu", 2, -1}, {"# ordu barru", 2, 1}, {"duela ## ordu", 2, -1}, {"## ordu barru", 2, 1}, {"duela 1 egun", 3, -1}, {"1 egun barru", 3, 1}, {"duela 2 egun", 3, -2}, {"2 egun barru", 3, 2}, {"duela # egun", 3, -1}, {"# egun barru", 3, 1}, {"duela ## egun", 3, -1}, {"## egun barru", 3, 1}, {"duela 1 aste", 4, -1}, {"1 aste barru", 4, 1}, {"duela 2 aste", 4, -2}, {"2 aste barru", 4, 2}, {"duela # aste", 4, -1}, {"# aste barru", 4, 1}, {"duela ## aste", 4, -1}, {"## aste barru", 4, 1}, {"duela 1 hilabete", 5, -1}, {"1 hilabete barru", 5, 1}, {"duela 2 hilabete", 5, -2}, {"2 hilabete barru", 5, 2}, {"duela # hilabete", 5, -1}, {"# hilabete barru", 5, 1}, {"duela ## hilabete", 5, -1}, {"## hilabete barru", 5, 1}, {"duela 1 urte", 6, -1}, {"1 urte barru", 6, 1}, {"duela 2 urte", 6, -2}, {"2 urte barru", 6, 2}, {"duela # urte", 6, -1}, {"# urte barru", 6, 1}, {"duela ## urte", 6, -1}, {"## urte barru", 6, 1}}},
	{"ewo",
		[]nameOf{{"ngɔn osú", 1}, {"ngo", 1}, {"ngɔn bɛ̌", 2}, {"ngb", 2}, {"ngɔn lála", 3}, {"ngl", 3}, {"ngɔn nyina", 4}, {"ngn", 4}, {"ngɔn tána", 5}, {"ngt", 5}, {"ngɔn saməna", 6}, {"ngs", 6}, {"ngɔn zamgbála", 7}, {"ngz", 7}, {"ngɔn mwom", 8}, {"ngm", 8}, {"ngɔn ebulú", 9}, {"nge", 9}, {"ngɔn awóm", 10}, {"nga", 10}, {"ngɔn awóm ai dziá", 11}, {"ngad", 11}, {"ngɔn awóm ai bɛ̌", 12}, {"ngab", 12}},
		[]nameOf{{"# ngɔn osú ##", 1}, {"# ngɔn bɛ̌ ##", 2}, {"# ngɔn lála ##", 3}, {"# ngɔn nyina ##", 4}, {"# ngɔn tána ##", 5}, {"# ngɔn saməna ##", 6}, {"# ngɔn zamgbála ##", 7}, {"# ngɔn mwom ##", 8}, {"# ngɔn ebulú ##", 9}, {"# ngɔn awóm ##", 10}, {"# ngɔn awóm ai dziá ##", 11}, {"# ngɔn awóm ai bɛ̌ ##", 12}},
		[]nameOf{{"mɔ́ndi", 1}, {"sɔ́ndɔ məlú mə́bɛ̌", 2}, {"sɔ́ndɔ məlú mə́lɛ́", 3}, {"sɔ́ndɔ məlú mə́nyi", 4}, {"fúladé", 5}, {"séradé", 6}, {"sɔ́ndɔ", 0}, {"mɔ́n", 1}, {"smb", 2}, {"sml", 3}, {"smn", 4}, {"fúl", 5}, {"sér", 6}, {"sɔ́n", 0}},
		[]amountOf{}},
	{"fa",
		[]nameOf{{"ژانویهٔ", 1}, {"ژانویه", 1}, {"فوریهٔ", 2}, {"فوریه", 2}, {"مارس", 3}, {"آوریل", 4}, {"مهٔ", 5}, {"مه", 5}, {"ژوئن", 6}, {"ژوئیهٔ", 7}, {"ژوئیه", 7}, {"اوت", 8}, {"سپتامبر", 9}, {"اکتبر", 10}, {"نوامبر", 11}, {"دسامبر", 12}},
		[]nameOf{{"# ژانویهٔ ##", 1}, {"# فوریهٔ ##", 2}, {"# مارس ##", 3}, {"# آوریل ##", 4}, {"# مهٔ ##", 5}, {"# ژوئن ##", 6}, {"# ژوئیهٔ ##", 7}, {"# اوت ##", 8}, {"# سپتامبر ##", 9}, {"# اکتبر ##", 10}, {"# نوامبر ##", 11}, {"# دسامبر ##", 12}},
		[]nameOf{{"دوشنبه", 1}, {"سه\u200cشنبه", 2}, {"چهارشنبه", 3}, {"پنجشنبه", 4}, {"جمعه", 5}, {"شنبه", 6}, {"یکشنبه", 0}},
		[]amountOf{{"1 ثانیه پیش", 0, -1}, {"1 ثانیه بعد", 0, 1}, {"2 ثانیه پیش", 0, -2}, {"2 ثانیه بعد", 0, 2}, {"# ثانیه پیش", 0, -1}, {"# ثانیه بعد", 0, 1}, {"## ثانیه پیش", 0, -1}, {"## ثانیه بعد", 0, 1}, {"1 دقیقه پیش", 1, -1}, {"1 دقیقه بعد", 1, 1}, {"2 دقیقه پیش", 1, -2}, {"2 دقیقه بعد", 1, 2}, {"# دقیقه پیش", 1, -1}, {"# دقیقه بعد", 1, 1}, {"## دقیقه پیش", 1, -1}, {"## دقیقه بعد", 1, 1}, {"1 ساعت پیش", 2, -1}, {"1 ساعت بعد", 2, 1}, {"2 ساعت پیش", 2, -2}, {"2 ساعت بعد", 2, 2}, {"# ساعت پیش", 2, -1}, {"# ساعت بعد", 2, 1}, {"## ساعت پیش", 2, -1}, {"## ساعت بعد", 2, 1}, {"1 روز پیش", 3, -1}, {"2 روز پیش", 3, -2}, {"# روز پیش", 3, -1}, {"## روز پیش", 3, -1}, {"1 هفته پیش", 4, -1}, {"1 هفته بعد", 4, 1}, {"2 هفته پیش", 4, -2}, {"2 هفته بعد", 4, 2}, {"# هفته پیش", 4, -1}, {"# هفته بعد", 4, 1}, {"## هفته پیش", 4, -1}, {"## هفته بعد", 4, 1}, {"1 ماه پیش", 5, -1}, {"1 ماه بعد", 5, 1}, {"2 ماه پیش", 5, -2}, {"2 ماه بعد", 5, 2}, {"# ماه پیش", 5, -1}, {"# ماه بعد", 5, 1}, {"## ماه پیش", 5, -1}, {"## ماه بعد", 5, 1}, {"1 سال پیش", 6, -1}, {"1 سال بعد", 6, 1}, {"2 سال پیش", 6, -2}, {"2 سال بعد", 6, 2}, {"# سال پیش", 6, -1}, {"# سال بعد", 6, 1}, {"## سال پیش", 6, -1}, {"## سال بعد", 6, 1}}},
	{"ff",
		[]nameOf{{"siilo", 1}, {"sii", 1}, {"colte", 2}, {"col", 2}, {"mbooy", 3}, {"mbo", 3}, {"seeɗto", 4}, {"see", 4}, {"duujal", 5}, {"duu", 5}, {"korse", 6}, {"kor", 6}, {"morso", 7}, {"mor", 7}, {"juko", 8}, {"juk", 8}, {"siilto", 9}, {"slt", 9}, {"yarkomaa", 10}, {"yar", 10}, {"jolal", 11}, {"jol", 11}, {"bowte", 12}, {"bow", 12}},
		[]nameOf{{"# siilo ##", 1}, {"# colte ##", 2}, {"# mbooy ##", 3}, {"# seeɗto ##", 4}, {"# duujal ##", 5}, {"# korse ##", 6}, {"# morso ##", 7}, {"# juko ##", 8}, {"# siilto ##", 9}, {"# yarkomaa ##", 10}, {"# jolal ##", 11}, {"# bowte ##", 12}},
		[]nameOf{{"aaɓnde", 1}, {"mawbaare", 2}, {"njeslaare", 3}, {"naasaande", 4}, {"mawnde", 5}, {"hoore-biir", 6}, {"dewo", 0}, {"aaɓ", 1}, {"maw", 2}, {"nje", 3}, {"naa", 4}, {"mwd", 5}, {"hbi", 6}, {"dew", 0}},
		[]amountOf{}},
	{"fi",
		[]nameOf{{"tammikuuta", 1}, {"tammikuu", 1}, {"1", 1}, {"helmikuuta", 2}, {"helmikuu", 2}, {"2", 2}, {"maaliskuuta", 3}, {"maaliskuu", 3}, {"3", 3}, {"huhtikuuta", 4}, {"huhtikuu", 4}, {"4", 4}, {"toukokuuta", 5}, {"toukokuu", 5}, {"5", 5}, {"kesäkuuta", 6}, {"kesäkuu", 6}, {"6", 6}, {"heinäkuuta", 7}, {"heinäkuu", 7}, {"7", 7}, {"elokuuta", 8}, {"elokuu", 8}, {"8", 8}, {"syyskuuta", 9}, {"syyskuu", 9}, {"9", 9}, {"lokakuuta", 10}, {"lokakuu", 10}, {"10", 10}, {"marraskuuta", 11}, {"marraskuu", 11}, {"11", 11}, {"joulukuuta", 12}, {"joulukuu", 12}, {"12", 12}},
		[]nameOf{{"#. tammikuuta ##", 1}, {"#. helmikuuta ##", 2}, {"#. maaliskuuta ##", 3}, {"#. huhtikuuta ##", 4}, {"#. toukokuuta ##", 5}, {"#. kesäkuuta ##", 6}, {"#. heinäkuuta ##", 7}, {"#. elokuuta ##", 8}, {"#. syyskuuta ##", 9}, {"#. lokakuuta ##", 10}, {"#. marraskuuta ##", 11}, {"#. joulukuuta ##", 12}},
		[]nameOf{{"maanantai", 1}, {"tiistai", 2}, {"keskiviikko", 3}, {"torstai", 4}, {"perjantai", 5}, {"lauantai", 6}, {"sunnuntai", 0}, {"ma", 1}, {"ti", 2}, {"ke", 3}, {"to", 4}, {"pe", 5}, {"la", 6}, {"su", 0}},
		[]amountOf{{"1 sekunti sitten", 0, -1}, {"1 sekunnin päästä", 0, 1}, {"2 sekuntia sitten", 0, -2}, {"2 sekunnin päästä", 0, 2}, {"# sekuntia sitten", 0, -1}, {"# sekunnin päästä", 0, 1}, {"## sekuntia sitten", 0, -1}, {"## sekunnin päästä", 0, 1}, {"1 minuutti sitten", 1, -1}, {"1 minuutin päästä", 1, 1}, {"2 minuuttia sitten", 1, -2}, {"2 minuutin päästä", 1, 2}, {"# minuuttia sitten", 1, -1}, {"# minuutin päästä", 1, 1}, {"## minuuttia sitten", 1, -1}, {"## minuutin päästä", 1, 1}, {"1 tunti sitten", 2, -1}, {"1 tunnin päästä", 2, 1}, {"2 tuntia sitten", 2, -2}, {"2 tunnin päästä", 2, 2}, {"# tuntia sitten", 2, -1}, {"# tunnin päästä", 2, 1}, {"## tuntia sitten", 2, -1}, {"## tunnin päästä", 2, 1}, {"1 päivä sitten", 3, -1}, {"1 päivän päästä", 3, 1}, {"2 päivää sitten", 3, -2}, {"2 päivän päästä", 3, 2}, {"# päivää sitten", 3, -1}, {"# päivän päästä", 3, 1}, {"## päivää sitten", 3, -1}, {"## päivän päästä", 3, 1}, {"1 viikko sitten", 4, -1}, {"1 viikon päästä", 4, 1}, {"2 viikkoa sitten", 4, -2}, {"2 viikon päästä", 4, 2}, {"# viikkoa sitten", 4, -1}, {"# viikon päästä", 4, 1}, {"## viikkoa sitten", 4, -1}, {"## viikon päästä", 4, 1}, {"1 kuukausi sitten", 5, -1}, {"1 kuukauden päästä", 5, 1}, {"2 kuukautta sitten", 5, -2}, {"2 kuukauden päästä", 5, 2}, {"# kuukautta sitten", 5, -1}, {"# kuukauden päästä", 5, 1}, {"## kuukautta sitten", 5, -1}, {"## kuukauden päästä", 5, 1}, {"1 vuosi sitten", 6, -1}, {"1 vuoden päästä", 6, 1}, {"2 vuotta sitten", 6, -2}, {"2 vuoden päästä", 6, 2}, {"# vuotta sitten", 6, -1}, {"# vuoden päästä", 6, 1}, {"## vuotta sitten", 6, -1}, {"## vuoden päästä", 6, 1}}},
	{"fil",
		[]nameOf{{"Enero", 1}, {"Ene", 1}, {"Pebrero", 2}, {"Peb", 2}, {"Marso", 3}, {"Abril", 4}, {"Abr", 4}, {"Mayo", 5}, {"May", 5}, {"Hunyo", 6}, {"Hun", 6}, {"Hulyo", 7}, {"Hul", 7}, {"Agosto", 8}, {"Ago", 8}, {"Setyembre", 9}, {"Set", 9}, {"Oktubre", 10}, {"Okt", 10}, {"Nobyembre", 11}, {"Nob", 11}, {"Disyembre", 12}, {"Dis", 12}},
		[]nameOf{{"Enero #, ##", 1}, {"Pebrero #, ##", 2}, {"Marso #, ##", 3}, {"Abril #, ##", 4}, {"Mayo #, ##", 5}, {"Hunyo #, ##", 6}, {"Hulyo #, ##", 7}, {"Agosto #, ##", 8}, {"Setyembre #, ##", 9}, {"Oktubre #, ##", 10}, {"Nobyembre #, ##", 11}, {"Disyembre #, ##", 12}},
		[]nameOf{{"Lunes", 1}, {"Martes", 2}, {"Miyerkules", 3}, {"Huwebes", 4}, {"Biyernes", 5}, {"Sabado", 6}, {"Linggo", 0}, {"Lun", 1}, {"Miy", 3}, {"Huw", 4}, {"Biy", 5}, {"Sab", 6}, {"Lin", 0}},
		[]amountOf{{"1 segundo ang nakalipas", 0, -1}, {"sa 1 segundo", 0, 1}, {"2 segundo ang nakalipas", 0, -2}, {"sa 2 segundo", 0, 2}, {"# segundo ang nakalipas", 0, -1}, {"sa # segundo", 0, 1}, {"## segundo ang nakalipas", 0, -1}, {"sa ## segundo", 0, 1}, {"1 minuto ang nakalipas", 1, -1}, {"sa 1 minuto", 1, 1}, {"2 minuto ang nakalipas", 1, -2}, {"sa 2 minuto", 1, 2}, {"# minuto ang nakalipas", 1, -1}, {"sa # minuto", 1, 1}, {"## minuto ang nakalipas", 1, -1}, {"sa ## minuto", 1, 1}, {"1 oras ang nakalipas", 2, -1}, {"sa 1 oras", 2, 1}, {"2 oras ang nakalipas", 2, -2}, {"sa 2 oras", 2, 2}, {"# oras ang nakalipas", 2, -1}, {"sa # oras", 2, 1}, {"## oras ang nakalipas", 2, -1}, {"sa ## oras", 2, 1}, {"1 araw ang nakalipas", 3, -1}, {"sa 1 araw", 3, 1}, {"2 araw ang nakalipas", 3, -2}, {"sa 2 araw", 3, 2}, {"# araw ang nakalipas", 3, -1}, {"sa # araw", 3, 1}, {"## araw ang nakalipas", 3, -1}, {"sa ## araw", 3, 1}, {"1 linggo ang nakalipas", 4, -1}, {"sa 1 linggo", 4, 1}, {"2 linggo ang nakalipas", 4, -2}, {"sa 2 linggo", 4, 2}, {"# linggo ang nakalipas", 4, -1}, {"sa # linggo", 4, 1}, {"## linggo ang nakalipas", 4, -1}, {"sa ## linggo", 4, 1}, {"1 buwan ang nakalipas", 5, -1}, {"sa 1 buwan", 5, 1}, {"2 buwan ang nakalipas", 5, -2}, {"sa 2 buwan", 5, 2}, {"# buwan ang nakalipas", 5, -1}, {"sa # buwan", 5, 1}, {"## buwan ang nakalipas", 5, -1}, {"sa ## buwan", 5, 1}, {"1 taon ang nakalipas", 6, -1}, {"sa 1 taon", 6, 1}, {"2 taon ang nakalipas", 6, -2}, {"sa 2 taon", 6, 2}, {"# taon ang nakalipas", 6, -1}, {"sa # taon", 6, 1}, {"## taon ang nakalipas", 6, -1}, {"sa ## taon", 6, 1}}},
	{"fo",
		[]nameOf{{"januar", 1}, {"jan.", 1}, {"februar", 2}, {"feb.", 2}, {"mars", 3}, {"mar.", 3}, {"apríl", 4}, {"apr.", 4}, {"mai", 5}, {"juni", 6}, {"jun.", 6}, {"juli", 7}, {"jul.", 7}, {"august", 8}, {"aug.", 8}, {"september", 9}, {"sep.", 9}, {"oktober", 10}, {"okt.", 10}, {"november", 11}, {"nov.", 11}, {"desember", 12}, {"des.", 12}},
		[]nameOf{{"#. januar ##", 1}, {"#. februar ##", 2}, {"#. mars ##", 3}, {"#. apríl ##", 4}, {"#. mai ##", 5}, {"#. juni ##", 6}, {"#. juli ##", 7}, {"#. august ##", 8}, {"#. september ##", 9}, {"#. oktober ##", 10}, {"#. november ##", 11}, {"#. desember ##", 12}},
		[]nameOf{{"mánadagur", 1}, {"týsdagur", 2}, {"mikudagur", 3}, {"hósdagur", 4}, {"fríggjadagur", 5}, {"leygardagur", 6}, {"sunnudagur", 0}, {"mán", 1}, {"týs", 2}, {"mik", 3}, {"hós", 4}, {"frí", 5}, {"ley", 6}, {"sun", 0}},
		[]amountOf{{"1 sekund síðan", 0, -1}, {"um 1 sekund", 0, 1}, {"2 sekund síðan", 0, -2}, {"um 2 sekund", 0, 2}, {"# sekund síðan", 0, -1}, {"um # sekund", 0, 1}, {"## sekund síðan", 0, -1}, {"um ## sekund", 0, 1}, {"1 minutt síðan", 1, -1}, {"um 1 minutt", 1, 1}, {"2 minuttir síðan", 1, -2}, {"um 2 minuttir", 1, 2}, {"# minuttir síðan", 1, -1}, {"um # minuttir", 1, 1}, {"## minuttir síðan", 1, -1}, {"um ## minuttir", 1, 1}, {"1 tími síðan", 2, -1}, {"um 1 tíma", 2, 1}, {"2 tímar síðan", 2, -2}, {"um 2 tímar", 2, 2}, {"# tímar síðan", 2, -1}, {"um # tímar", 2, 1}, {"## tímar síðan", 2, -1}, {"um ## tímar", 2, 1}, {"1 dagur síðan", 3, -1}, {"um 1 dag", 3, 1}, {"2 dagar síðan", 3, -2}, {"um 2 dagar", 3, 2}, {"# dagar síðan", 3, -1}, {"um # dagar", 3, 1}, {"## dagar síðan", 3, -1}, {"um ## dagar", 3, 1}, {"1 vika síðan", 4, -1}, {"um 1 viku", 4, 1}, {"2 vikur síðan", 4, -2}, {"um 2 vikur", 4, 2}, {"# vikur síðan", 4, -1}, {"um # vikur", 4, 1}, {"## vikur síðan", 4, -1}, {"um ## vikur", 4, 1}, {"1 mánað síðan", 5, -1}, {"um 1 mánað", 5, 1}, {"2 mánaðir síðan", 5, -2}, {"um 2 mánaðir", 5, 2}, {"# mánaðir síðan", 5, -1}, {"um # mánaðir", 5, 1}, {"## mánaðir síðan", 5, -1}, {"um ## mánaðir", 5, 1}, {"1 ár síðan", 6, -1}, {"um 1 ár", 6, 1}, {"2 ár síðan", 6, -2}, {"um 2 ár", 6, 2}, {"# ár síðan", 6, -1}, {"um # ár", 6, 1}, {"## ár síðan", 6, -1}, {"um ## ár", 6, 1}}},
	{"fr",
		[]nameOf{{"janvier", 1}, {"janv.", 1}, {"février", 2}, {"févr.", 2}, {"mars", 3}, {"avril", 4}, {"avr.", 4}, {"mai", 5}, {"juin", 6}, {"juillet", 7}, {"juil.", 7}, {"août", 8}, {"septembre", 9}, {"sept.", 9}, {"octobre", 10}, {"oct.", 10}, {"novembre", 11}, {"nov.", 11}, {"décembre", 12}, {"déc.", 12}},
		[]nameOf{{"# janvier ##", 1}, {"# février ##", 2}, {"# mars ##", 3}, {"# avril ##", 4}, {"# mai ##", 5}, {"# juin ##", 6}, {"# juillet ##", 7}, {"# août ##", 8}, {"# septembre ##", 9}, {"# octobre ##", 10}, {"# novembre ##", 11}, {"# décembre ##", 12}},
		[]nameOf{{"lundi", 1}, {"mardi", 2}, {"mercredi", 3}, {"jeudi", 4}, {"vendredi", 5}, {"samedi", 6}, {"dimanche", 0}, {"lun.", 1}, {"mar.", 2}, {"mer.", 3}, {"jeu.", 4}, {"ven.", 5}, {"sam.", 6}, {"dim.", 0}},
		[]amountOf{{"il y a 1 seconde", 0, -1}, {"dans 1 seconde", 0, 1}, {"il y a 2 secondes", 0, -2}, {"dans 2 secondes", 0, 2}, {"il y a # secondes", 0, -1}, {"dans # secondes", 0, 1}, {"il y a ## secondes", 0, -1}, {"dans ## secondes", 0, 1}, {"il y a 1 minute", 1, -1}, {"dans 1 minute", 1, 1}, {"il y a 2 minutes", 1, -2}, {"dans 2 minutes", 1, 2}, {"il y a # minutes", 1, -1}, {"dans # minutes", 1, 1}, {"il y a ## minutes", 1, -1}, {"dans ## minutes", 1, 1}, {"il y a 1 heure", 2, -1}, {"dans 1 heure", 2, 1}, {"il y a 2 heures", 2, -2}, {"dans 2 heures", 2, 2}, {"il y a # heures", 2, -1}, {"dans # heures", 2, 1}, {"il y a ## heures", 2, -1}, {"dans ## heures", 2, 1}, {"il y a 1 jour", 3, -1}, {"dans 1 jour", 3, 1}, {"il y a 2 jours", 3, -2}, {"dans 2 jours", 3, 2}, {"il y a # jours", 3, -1}, {"dans # jours", 3, 1}, {"il y a ## jours", 3, -1}, {"dans ## jours", 3, 1}, {"il y a 1 semaine", 4, -1}, {"dans 1 semaine", 4, 1}, {"il y a 2 semaines", 4, -2}, {"dans 2 semaines", 4, 2}, {"il y a # semaines", 4, -1}, {"dans # semaines", 4, 1}, {"il y a ## semaines", 4, -1}, {"dans ## semaines", 4, 1}, {"il y a 1 mois", 5, -1}, {"dans 1 mois", 5, 1}, {"il y a 2 mois", 5, -2}, {"dans 2 mois", 5, 2}, {"il y a # mois", 5, -1}, {"dans # mois", 5, 1}, {"il y a ## mois", 5, -1}, {"dans ## mois", 5, 1}, {"il y a 1 an", 6, -1}, {"dans 1 an", 6, 1}, {"il y a 2 ans", 6, -2}, {"dans 2 ans", 6, 2}, {"il y a # ans", 6, -1}, {"dans # ans", 6, 1}, {"il y a ## ans", 6, -1}, {"dans ## ans", 6, 1}}},
	{"fur",
		[]nameOf{{"Zenâr", 1}, {"Zen", 1}, {"Fevrâr", 2}, {"Fev", 2}, {"Març", 3}, {"Avrîl", 4}, {"Avr", 4}, {"Mai", 5}, {"Jugn", 6}, {"Jug", 6}, {"Lui", 7}, {"Avost", 8}, {"Avo", 8}, {"Setembar", 9}, {"Set", 9}, {"Otubar", 10}, {"Otu", 10}, {"Novembar", 11}, {"Nov", 11}, {"Dicembar", 12}, {"Dic", 12}},
		[]nameOf{},
		[]nameOf{{"lunis", 1}, {"martars", 2}, {"miercus", 3}, {"joibe", 4}, {"vinars", 5}, {"sabide", 6}, {"domenie", 0}, {"lun", 1}, {"mie", 3}, {"joi", 4}, {"vin", 5}, {"sab", 6}, {"dom", 0}},
		[]amountOf{{"1 secont indaûr", 0, -1}, {"ca di 1 secont", 0, 1}, {"2 seconts indaûr", 0, -2}, {"ca di 2 seconts", 0, 2}, {"# seconts indaûr", 0, -1}, {"ca di # seconts", 0, 1}, {"## seconts indaûr", 0, -1}, {"ca di ## seconts", 0, 1}, {"1 minût indaûr", 1, -1}, {"ca di 1 minût", 1, 1}, {"2 minûts indaûr", 1, -2}, {"ca di 2 minûts", 1, 2}, {"# minûts indaûr", 1, -1}, {"ca di # minûts", 1, 1}, {"## minûts indaûr", 1, -1}, {"ca di ## minûts", 1, 1}, {"1 ore indaûr", 2, -1}, {"ca di 1 ore", 2, 1}, {"2 oris indaûr", 2, -2}, {"ca di 2 oris", 2, 2}, {"# oris indaûr", 2, -1}, {"ca di # oris", 2, 1}, {"## oris indaûr", 2, -1}, {"ca di ## oris", 2, 1}, {"1 zornade indaûr", 3, -1}, {"ca di 1 zornade", 3, 1}, {"2 zornadis indaûr", 3, -2}, {"ca di 2 zornadis", 3, 2}, {"# zornadis indaûr", 3, -1}, {"ca di # zornadis", 3, 1}, {"## zornadis indaûr", 3, -1}, {"ca di ## zornadis", 3, 1}, {"1 setemane indaûr", 4, -1}, {"ca di 1 setemane", 4, 1}, {"2 setemanis indaûr", 4, -2}, {"ca di 2 setemanis", 4, 2}, {"# setemanis indaûr", 4, -1}, {"ca di # setemanis", 4, 1}, {"## setemanis indaûr", 4, -1}, {"ca di ## setemanis", 4, 1}, {"1 mês indaûr", 5, -1}, {"ca di 1 mês", 5, 1}, {"2 mês indaûr", 5, -2}, {"ca di 2 mês", 5, 2}, {"# mês indaûr", 5, -1}, {"ca di # mês", 5, 1}, {"## mês indaûr", 5, -1}, {"ca di ## mês", 5, 1}, {"1 an indaûr", 6, -1}, {"ca di 1 an", 6, 1}, {"2 agns indaûr", 6, -2}, {"ca di 2 agns", 6, 2}, {"# agns indaûr", 6, -1}, {"ca di # agns", 6, 1}, {"## agns indaûr", 6, -1}, {"ca di ## agns", 6, 1}}},
	{"fy",
		[]nameOf{{"Jannewaris", 1}, {"Jan", 1}, {"Febrewaris", 2}, {"Feb", 2}, {"Maart", 3}, {"Mrt", 3}, {"April", 4}, {"Apr", 4}, {"Maaie", 5}, {"Mai", 5}, {"Juny", 6}, {"Jun", 6}, {"July", 7}, {"Jul", 7}, {"Augustus", 8}, {"Aug", 8}, {"Septimber", 9}, {"Sep", 9}, {"Oktober", 10}, {"Okt", 10}, {"Novimber", 11}, {"Nov", 11}, {"Desimber", 12}, {"Des", 12}},
		[]nameOf{{"# Jannewaris ##", 1}, {"# Febrewaris ##", 2}, {"# Maart ##", 3}, {"# April ##", 4}, {"# Maaie ##", 5}, {"# Juny ##", 6}, {"# July ##", 7}, {"# Augustus ##", 8}, {"# Septimber ##", 9}, {"# Oktober ##", 10}, {"# Novimber ##", 11}, {"# Desimber ##", 12}},
		[]nameOf{{"moandei", 1}, {"tiisdei", 2}, {"woansdei", 3}, {"tongersdei", 4}, {"freed", 5}, {"sneon", 6}, {"snein", 0}, {"mo", 1}, {"ti", 2}, {"wo", 3}, {"to", 4}, {"fr", 5}, {"so", 6}, {"si", 0}},
		[]amountOf{{"1 sekonde lyn", 0, -1}, {"Oer 1 sekonde", 0, 1}, {"2 sekonden lyn", 0, -2}, {"Oer 2 sekonden", 0, 2}, {"# sekonden lyn", 0, -1}, {"Oer # sekonden", 0, 1}, {"## sekonden lyn", 0, -1}, {"Oer ## sekonden", 0, 1}, {"1 minút lyn", 1, -1}, {"Oer 1 minút", 1, 1}, {"2 minuten lyn", 1, -2}, {"Oer 2 minuten", 1, 2}, {"# minuten lyn", 1, -1}, {"Oer # minuten", 1, 1}, {"## minuten lyn", 1, -1}, {"Oer ## minuten", 1, 1}, {"1 oere lyn", 2, -1}, {"Oer 1 oere", 2, 1}, {"2 oere lyn", 2, -2}, {"Oer 2 oere", 2, 2}, {"# oere lyn", 2, -1}, {"Oer # oere", 2, 1}, {"## oere lyn", 2, -1}, {"Oer ## oere", 2, 1}, {"1 dei lyn", 3, -1}, {"Oer 1 dei", 3, 1}, {"2 deien lyn", 3, -2}, {"Oer 2 deien", 3, 2}, {"# deien lyn", 3, -1}, {"Oer # deien", 3, 1}, {"## deien lyn", 3, -1}, {"Oer ## deien", 3, 1}, {"1 wike lyn", 4, -1}, {"Oer 1 wike", 4, 1}, {"2 wiken lyn", 4, -2}, {"Oer 2 wiken", 4, 2}, {"# wiken lyn", 4, -1}, {"Oer # wiken", 4, 1}, {"## wiken lyn", 4, -1}, {"Oer ## wiken", 4, 1}, {"1 moanne lyn", 5, -1}, {"Oer 1 moanne", 5, 1}, {"2 moannen lyn", 5, -2}, {"Oer 2 moannen", 5, 2}, {"# moannen lyn", 5, -1}, {"Oer # moannen", 5, 1}, {"## moannen lyn", 5, -1}, {"Oer ## moannen", 5, 1}, {"1 jier lyn", 6, -1}, {"Oer 1 jier", 6, 1}, {"2 jier lyn", 6, -2}, {"Oer 2 jier", 6, 2}, {"# jier lyn", 6, -1}, {"Oer # jier", 6, 1}, {"## jier lyn", 6, -1}, {"Oer ## jier", 6, 1}}},
	{"ga",
		[]nameOf{{"Eanáir", 1}, {"Ean", 1}, {"Feabhra", 2}, {"Feabh", 2}, {"Márta", 3}, {"Aibreán", 4}, {"Aib", 4}, {"Bealtaine", 5}, {"Beal", 5}, {"Meitheamh", 6}, {"Meith", 6}, {"Iúil", 7}, {"Lúnasa", 8}, {"Lún", 8}, {"Meán Fómhair", 9}, {"MFómh", 9}, {"Deireadh Fómhair", 10}, {"DFómh", 10}, {"Samhain", 11}, {"Samh", 11}, {"Nollaig", 12}, {"Noll", 12}},
		[]nameOf{{"# Eanáir ##", 1}, {"# Feabhra ##", 2}, {"# Márta ##", 3}, {"# Aibreán ##", 4}, {"# Bealtaine ##", 5}, {"# Meitheamh ##", 6}, {"# Iúil ##", 7}, {"# Lúnasa ##", 8}, {"# Meán Fómhair ##", 9}, {"# Deireadh Fómhair ##", 10}, {"# Samhain ##", 11}, {"# Nollaig ##", 12}},
		[]nameOf{{"Dé Luain", 1}, {"Dé Máirt", 2}, {"Dé Céadaoin", 3}, {"Déardaoin", 4}, {"Dé hAoine", 5}, {"Dé Sathairn", 6}, {"Dé Domhnaigh", 0}, {"Luan", 1}, {"Máirt", 2}, {"Céad", 3}, {"Déar", 4}, {"Aoine", 5}, {"Sath", 6}, {"Domh", 0}},
		[]amountOf{{"1 soicind ó shin", 0, -1}, {"i gceann 1 soicind", 0, 1}, {"## soicind ó shin", 0, -1}, {"i gceann ## soicind", 0, 1}, {"1 nóiméad ó shin", 1, -1}, {"i gceann 1 nóiméad", 1, 1}, {"2 nóiméad ó shin", 1, -2}, {"i gceann 2 nóiméad", 1, 2}, {"# nóiméad ó shin", 1, -1}, {"i gceann # nóiméad", 1, 1}, {"## nóiméad ó shin", 1, -1}, {"i gceann ## nóiméad", 1, 1}, {"1 uair an chloig ó shin", 2, -1}, {"i gceann 1 uair an chloig", 2, 1}, {"2 uair an chloig ó shin", 2, -2}, {"i gceann 2 uair an chloig", 2, 2}, {"# uair an chloig ó shin", 2, -1}, {"i gceann # uair an chloig", 2, 1}, {"1 lá ó shin", 3, -1}, {"i gceann 1 lá", 3, 1}, {"2 lá ó shin", 3, -2}, {"i gceann 2 lá", 3, 2}, {"# lá ó shin", 3, -1}, {"i gceann # lá", 3, 1}, {"## lá ó shin", 3, -1}, {"i gceann ## lá", 3, 1}, {"1 seachtain ó shin", 4, -1}, {"1 mhí ó shin", 5, -1}, {"i gceann 1 mhí", 5, 1}, {"2 mhí ó shin", 5, -2}, {"i gceann 2 mhí", 5, 2}, {"# mhí ó shin", 5, -1}, {"i gceann # mhí", 5, 1}, {"## mí ó shin", 5, -1}, {"i gceann ## mí", 5, 1}, {"1 bhliain ó shin", 6, -1}, {"2 bhliain ó shin", 6, -2}, {"i gceann 2 bhliain", 6, 2}}},
	{"gd",
		[]nameOf{{"dhen Fhaoilleach", 1}, {"Am Faoilleach", 1}, {"Faoi", 1}, {"dhen Ghearran", 2}, {"An Gearran", 2}, {"Gearr", 2}, {"dhen Mhàrt", 3}, {"Am Màrt", 3}, {"Màrt", 3}, {"dhen Ghiblean", 4}, {"An Giblean", 4}, {"Gibl", 4}, {"dhen Chèitean", 5}, {"An Cèitean", 5}, {"Cèit", 5}, {"dhen Ògmhios", 6}, {"An t-Ògmhios", 6}, {"Ògmh", 6}, {"dhen Iuchar", 7}, {"An t-Iuchar", 7}, {"Iuch", 7}, {"dhen Lùnastal", 8}, {"An Lùnastal", 8}, {"Lùna", 8}, {"dhen t-Sultain", 9}, {"An t-Sultain", 9}, {"Sult", 9}, {"dhen Dàmhair", 10}, {"An Dàmhair", 10}, {"Dàmh", 10}, {"dhen t-Samhain", 11}, {"An t-Samhain", 11}, {"Samh", 11}, {"dhen Dùbhlachd", 12}, {"An Dùbhlachd", 12}, {"Dùbh", 12}},
		[]nameOf{},
		[]nameOf{{"DiLuain", 1}, {"DiMàirt", 2}, {"DiCiadain", 3}, {"DiarDaoin", 4}, {"DihAoine", 5}, {"DiSathairne", 6}, {"DiDòmhnaich", 0}, {"DiL", 1}, {"DiM", 2}, {"DiC", 3}, {"Dia", 4}, {"Dih", 5}, {"DiS", 6}, {"DiD", 0}},
		[]amountOf{{"1 diog air ais", 0, -1}, {"an ceann 1 diog", 0, 1}, {"1 mhionaid air ais", 1, -1}, {"an ceann 1 mhionaid", 1, 1}, {"2 mhionaid air ais", 1, -2}, {"an ceann 2 mhionaid", 1, 2}, {"1 uair a thìde air ais", 2, -1}, {"an ceann 1 uair a thìde", 2, 1}, {"2 uair a thìde air ais", 2, -2}, {"an ceann 2 uair a thìde", 2, 2}, {"1 latha air ais", 3, -1}, {"an ceann 1 latha", 3, 1}, {"2 latha air ais", 3, -2}, {"an ceann 2 latha", 3, 2}, {"1 seachdain air ais", 4, -1}, {"an ceann 1 seachdain", 4, 1}, {"1 mhìos air ais", 5, -1}, {"an ceann 1 mhìosa", 5, 1}, {"2 mhìos air ais", 5, -2}, {"an ceann 2 mhìosa", 5, 2}, {"1 bhliadhna air ais", 6, -1}, {"an ceann 1 bhliadhna", 6, 1}, {"2 bhliadhna air ais", 6, -2}, {"an ceann 2 bhliadhna", 6, 2}}},
	{"gl",
		[]nameOf{{"xaneiro", 1}, {"xan.", 1}, {"febreiro", 2}, {"feb.", 2}, {"marzo", 3}, {"abril", 4}, {"abr.", 4}, {"maio", 5}, {"xuño", 6}, {"xullo", 7}, {"xul.", 7}, {"agosto", 8}, {"ago.", 8}, {"setembro", 9}, {"set.", 9}, {"outubro", 10}, {"out.", 10}, {"novembro", 11}, {"nov.", 11}, {"decembro", 12}, {"dec.", 12}},
		[]nameOf{},
		[]nameOf{{"luns", 1}, {"martes", 2}, {"mércores", 3}, {"xoves", 4}, {"venres", 5}, {"sábado", 6}, {"domingo", 0}, {"mér.", 3}, {"xov.", 4}, {"ven.", 5}, {"sáb.", 6}, {"dom.", 0}},
		[]amountOf{{"hai 1 segundo", 0, -1}, {"en 1 segundo", 0, 1}, {"hai 2 segundos", 0, -2}, {"en 2 segundos", 0, 2}, {"hai # segundos", 0, -1}, {"en # segundos", 0, 1}, {"hai ## segundos", 0, -1}, {"en ## segundos", 0, 1}, {"hai 1 minuto", 1, -1}, {"en 1 minuto", 1, 1}, {"hai 2 minutos", 1, -2}, {"en 2 minutos", 1, 2}, {"hai # minutos", 1, -1}, {"en # minutos", 1, 1}, {"hai ## minutos", 1, -1}, {"en ## minutos", 1, 1}, {"hai 1 hora", 2, -1}, {"en 1 hora", 2, 1}, {"hai 2 horas", 2, -2}, {"en 2 horas", 2, 2}, {"hai # horas", 2, -1}, {"en # horas", 2, 1}, {"hai ## horas", 2, -1}, {"en ## horas", 2, 1}, {"hai 1 día", 3, -1}, {"en 1 día", 3, 1}, {"hai 2 días", 3, -2}, {"en 2 días", 3, 2}, {"hai # días", 3, -1}, {"en # días", 3, 1}, {"hai ## días", 3, -1}, {"en ## días", 3, 1}, {"hai 1 semana", 4, -1}, {"en 1 semana", 4, 1}, {"hai 2 semanas", 4, -2}, {"en 2 semanas", 4, 2}, {"hai # semanas", 4, -1}, {"en # semanas", 4, 1}, {"hai ## semanas", 4, -1}, {"en ## semanas", 4, 1}, {"hai 1 mes", 5, -1}, {"en 1 mes", 5, 1}, {"hai 2 meses", 5, -2}, {"en 2 meses", 5, 2}, {"hai # meses", 5, -1}, {"en # meses", 5, 1}, {"hai ## meses", 5, -1}, {"en ## meses", 5, 1}, {"hai 1 ano", 6, -1}, {"en 1 ano", 6, 1}, {"hai 2 anos", 6, -2}, {"en 2 anos", 6, 2}, {"hai # anos", 6, -1}, {"en # anos", 6, 1}, {"hai ## anos", 6, -1}, {"en ## anos", 6, 1}}},
	{"gsw",
		[]nameOf{{"Januar", 1}, {"Jan", 1}, {"Februar", 2}, {"Feb", 2}, {"März", 3}, {"Mär", 3}, {"April", 4}, {"Apr", 4}, {"Mai", 5}, {"Juni", 6}, {"Jun", 6}, {"Juli", 7}, {"Jul", 7}, {"Auguscht", 8}, {"Aug", 8}, {"Septämber", 9}, {"Sep", 9}, {"Oktoober", 10}, {"Okt", 10}, {"Novämber", 11}, {"Nov", 11}, {"Dezämber", 12}, {"Dez", 12}},
		[]nameOf{{"#. Januar ##", 1}, {"#. Februar ##", 2}, {"#. März ##", 3}, {"#. April ##", 4}, {"#. Mai ##", 5}, {"#. Juni ##", 6}, {"#. Juli ##", 7}, {"#. Auguscht ##", 8}, {"#. Septämber ##", 9}, {"#. Oktoober ##", 10}, {"#. Novämber ##", 11}, {"#. Dezämber ##", 12}},
		[]nameOf{{"Määntig", 1}, {"Ziischtig", 2}, {"Mittwuch", 3}, {"Dunschtig", 4}, {"Friitig", 5}, {"Samschtig", 6}, {"Sunntig", 0}, {"Mä.", 1}, {"Zi.", 2}, {"Mi.", 3}, {"Du.", 4}, {"Fr.", 5}, {"Sa.", 6}, {"Su.", 0}},
		[]amountOf{}},
	{"gu",
		[]nameOf{{"જાન્યુઆરી", 1}, {"જાન્યુ", 1}, {"ફેબ્રુઆરી", 2}, {"ફેબ્રુ", 2}, {"માર્ચ", 3}, {"એપ્રિલ", 4}, {"મે", 5}, {"જૂન", 6}, {"જુલાઈ", 7}, {"ઑગસ્ટ", 8}, {"સપ્ટેમ્બર", 9}, {"સપ્ટે", 9}, {"ઑક્ટોબર", 10}, {"ઑક્ટો", 10}, {"નવેમ્બર", 11}, {"નવે", 11}, {"ડિસેમ્બર", 12}, {"ડિસે", 12}},
		[]nameOf{{"# જાન્યુઆરી, ##", 1}, {"# ફેબ્રુઆરી, ##", 2}, {"# માર્ચ, ##", 3}, {"# એપ્રિલ, ##", 4}, {"# મે, ##", 5}, {"# જૂન, ##", 6}, {"# જુલાઈ, ##", 7}, {"# ઑગસ્ટ, ##", 8}, {"# સપ્ટેમ્બર, ##", 9}, {"# ઑક્ટોબર, ##", 10}, {"# નવેમ્બર, ##", 11}, {"# ડિસેમ્બર, ##", 12}},
		[]nameOf{{"સોમવાર", 1}, {"મંગળવાર", 2}, {"બુધવાર", 3}, {"ગુરુવાર", 4}, {"શુક્રવાર", 5}, {"શનિવાર", 6}, {"રવિવાર", 0}, {"સોમ", 1}, {"મંગળ", 2}, {"બુધ", 3}, {"ગુરુ", 4}, {"શુક્ર", 5}, {"શનિ", 6}, {"રવિ", 0}},
		[]amountOf{{"1 સેકંડ પહેલાં", 0, -1}, {"1 સેકંડમાં", 0, 1}, {"2 સેકંડ પહેલાં", 0, -2}, {"2 સેકંડમાં", 0, 2}, {"# સેકંડ પહેલાં", 0, -1}, {"# સેકંડમાં", 0, 1}, {"## સેકંડ પહેલાં", 0, -1}, {"## સેકંડમાં", 0, 1}, {"1 મિનિટ પહેલાં", 1, -1}, {"1 મિનિટમાં", 1, 1}, {"2 મિનિટ પહેલાં", 1, -2}, {"2 મિનિટમાં", 1, 2}, {"# મિનિટ પહેલાં", 1, -1}, {"# મિનિટમાં", 1, 1}, {"## મિનિટ પહેલાં", 1, -1}, {"## મિનિટમાં", 1, 1}, {"1 કલાક પહેલાં", 2, -1}, {"1 કલાકમાં", 2, 1}, {"2 કલાક પહેલાં", 2, -2}, {"2 કલાકમાં", 2, 2}, {"# કલાક પહેલાં", 2, -1}, {"# કલાકમાં", 2, 1}, {"## કલાક પહેલાં", 2, -1}, {"## કલાકમાં", 2, 1}, {"1 દિવસ પહેલાં", 3, -1}, {"1 દિવસમાં", 3, 1}, {"2 દિવસ પહેલાં", 3, -2}, {"2 દિવસમાં", 3, 2}, {"# દિવસ પહેલાં", 3, -1}, {"# દિવસમાં", 3, 1}, {"## દિવસ પહેલાં", 3, -1}, {"## દિવસમાં", 3, 1}, {"1 અઠવાડિયા પહેલાં", 4, -1}, {"1 અઠવાડિયામાં", 4, 1}, {"2 અઠવાડિયા પહેલાં", 4, -2}, {"2 અઠવાડિયામાં", 4, 2}, {"# અઠવાડિયા પહેલાં", 4, -1}, {"# અઠવાડિયામાં", 4, 1}, {"## અઠવાડિયા પહેલાં", 4, -1}, {"## અઠવાડિયામાં", 4, 1}, {"1 મહિના પહેલાં", 5, -1}, {"1 મહિનામાં", 5, 1}, {"2 મહિના પહેલાં", 5, -2}, {"2 મહિનામાં", 5, 2}, {"# મહિના પહેલાં", 5, -1}, {"# મહિનામાં", 5, 1}, {"## મહિના પહેલાં", 5, -1}, {"## મહિનામાં", 5, 1}, {"1 વર્ષ પહેલાં", 6, -1}, {"1 વર્ષમાં", 6, 1}, {"2 વર્ષ પહેલાં", 6, -2}, {"2 વર્ષમાં", 6, 2}, {"# વર્ષ પહેલાં", 6, -1}, {"# વર્ષમાં", 6, 1}, {"## વર્ષ પહેલાં", 6, -1}, {"## વર્ષમાં", 6, 1}}},
	{"guz",
		[]nameOf{{"Chanuari", 1}, {"Can", 1}, {"Feburari", 2}, {"Feb", 2}, {"Machi", 3}, {"Mac", 3}, {"Apiriri", 4}, {"Apr", 4}, {"Mei", 5}, {"Juni", 6}, {"Jun", 6}, {"Chulai", 7}, {"Cul", 7}, {"Agosti", 8}, {"Agt", 8}, {"Septemba", 9}, {"Sep", 9}, {"Okitoba", 10}, {"Okt", 10}, {"Nobemba", 11}, {"Nob", 11}, {"Disemba", 12}, {"Dis", 12}},
		[]nameOf{{"# Chanuari ##", 1}, {"# Feburari ##", 2}, {"# Machi ##", 3}, {"# Apiriri ##", 4}, {"# Mei ##", 5}, {"# Juni ##", 6}, {"# Chulai ##", 7}, {"# Agosti ##", 8}, {"# Septemba ##", 9}, {"# Okitoba ##", 10}, {"# Nobemba ##", 11}, {"# Disemba ##", 12}},
		[]nameOf{{"Chumatato", 1}, {"Chumaine", 2}, {"Chumatano", 3}, {"Aramisi", 4}, {"Ichuma", 5}, {"Esabato", 6}, {"Chumapiri", 0}, {"Ctt", 1}, {"Cmn", 2}, {"Cmt", 3}, {"Ars", 4}, {"Icm", 5}, {"Est", 6}, {"Cpr", 0}},
		[]amountOf{}},
	{"gv",
		[]nameOf{{"Jerrey-geuree", 1}, {"J-guer", 1}, {"Toshiaght-arree", 2}, {"T-arree", 2}, {"Mayrnt", 3}, {"Averil", 4}, {"Avrril", 4}, {"Boaldyn", 5}, {"Mean-souree", 6}, {"M-souree", 6}, {"Jerrey-souree", 7}, {"J-souree", 7}, {"Luanistyn", 8}, {"Mean-fouyir", 9}, {"M-fouyir", 9}, {"Jerrey-fouyir", 10}, {"J-fouyir", 10}, {"Mee Houney", 11}, {"M-Houney", 11}, {"Mee ny Nollick", 12}, {"M-Nollick", 12}},
		[]nameOf{{"## Jerrey-geuree #", 1}, {"## Toshiaght-arree #", 2}, {"## Mayrnt #", 3}, {"## Averil #", 4}, {"## Boaldyn #", 5}, {"## Mean-souree #", 6}, {"## Jerrey-souree #", 7}, {"## Luanistyn #", 8}, {"## Mean-fouyir #", 9}, {"## Jerrey-fouyir #", 10}, {"## Mee Houney #", 11}, {"## Mee ny Nollick #", 12}},
		[]nameOf{{"Jelhein", 1}, {"Jemayrt", 2}, {"Jercean", 3}, {"Jerdein", 4}, {"Jeheiney", 5}, {"Jesarn", 6}, {"Jedoonee", 0}, {"Jel", 1}, {"Jem", 2}, {"Jerc", 3}, {"Jerd", 4}, {"Jeh", 5}, {"Jes", 6}, {"Jed", 0}},
		[]amountOf{}},
	{"ha",
		[]nameOf{{"Janairu", 1}, {"Jan", 1}, {"Faburairu", 2}, {"Fab", 2}, {"Maris", 3}, {"Mar", 3}, {"Afirilu", 4}, {"Afi", 4}, {"Mayu", 5}, {"May", 5}, {"Yuni", 6}, {"Yun", 6}, {"Yuli", 7}, {"Yul", 7}, {"Agusta", 8}, {"Agu", 8}, {"Satumba", 9}, {"Sat", 9}, {"Oktoba", 10}, {"Okt", 10}, {"Nuwamba", 11}, {"Nuw", 11}, {"Disamba", 12}, {"Dis", 12}},
		[]nameOf{{"# Janairu, ##", 1}, {"# Faburairu, ##", 2}, {"# Maris, ##", 3}, {"# Afirilu, ##", 4}, {"# Mayu, ##", 5}, {"# Yuni, ##", 6}, {"# Yuli, ##", 7}, {"# Agusta, ##", 8}, {"# Satumba, ##", 9}, {"# Oktoba, ##", 10}, {"# Nuwamba, ##", 11}, {"# Disamba, ##", 12}},
		[]nameOf{{"Litinin", 1}, {"Talata", 2}, {"Laraba", 3}, {"Alhamis", 4}, {"Jummaʼa", 5}, {"Asabar", 6}, {"Lahadi", 0}, {"Lit", 1}, {"Tal", 2}, {"Lar", 3}, {"Alh", 4}, {"Jum", 5}, {"Asa", 6}, {"Lah", 0}},
		[]amountOf{}},
	{"haw",
		[]nameOf{{"Ianuali", 1}, {"Ian.", 1}, {"Pepeluali", 2}, {"Pep.", 2}, {"Malaki", 3}, {"Mal.", 3}, {"ʻApelila", 4}, {"ʻAp.", 4}, {"Mei", 5}, {"Iune", 6}, {"Iun.", 6}, {"Iulai", 7}, {"Iul.", 7}, {"ʻAukake", 8}, {"ʻAu.", 8}, {"Kepakemapa", 9}, {"Kep.", 9}, {"ʻOkakopa", 10}, {"ʻOk.", 10}, {"Nowemapa", 11}, {"Kekemapa", 12}, {"Kek.", 12}},
		[]nameOf{{"# Ianuali ##", 1}, {"# Pepeluali ##", 2}, {"# Malaki ##", 3}, {"# ʻApelila ##", 4}, {"# Mei ##", 5}, {"# Iune ##", 6}, {"# Iulai ##", 7}, {"# ʻAukake ##", 8}, {"# Kepakemapa ##", 9}, {"# ʻOkakopa ##", 10}, {"# Nowemapa ##", 11}, {"# Kekemapa ##", 12}},
		[]nameOf{{"Poʻakahi", 1}, {"Poʻalua", 2}, {"Poʻakolu", 3}, {"Poʻahā", 4}, {"Poʻalima", 5}, {"Poʻaono", 6}, {"Lāpule", 0}, {"P1", 1}, {"P2", 2}, {"P3", 3}, {"P4", 4}, {"P5", 5}, {"P6", 6}, {"LP", 0}},
		[]amountOf{}},
	{"he",
		[]nameOf{{"ינואר", 1}, {"ינו׳", 1}, {"פברואר", 2}, {"פבר׳", 2}, {"מרץ", 3}, {"אפריל", 4}, {"אפר׳", 4}, {"מאי", 5}, {"יוני", 6}, {"יולי", 7}, {"אוגוסט", 8}, {"אוג׳", 8}, {"ספטמבר", 9}, {"ספט׳", 9}, {"אוקטובר", 10}, {"אוק׳", 10}, {"נובמבר", 11}, {"נוב׳", 11}, {"דצמבר", 12}, {"דצמ׳", 12}},
		[]nameOf{{"# בינואר ##", 1}, {"# בפברואר ##", 2}, {"# במרץ ##", 3}, {"# באפריל ##", 4}, {"# במאי ##", 5}, {"# ביוני ##", 6}, {"# ביולי ##", 7}, {"# באוגוסט ##", 8}, {"# בספטמבר ##", 9}, {"# באוקטובר ##", 10}, {"# בנובמבר ##", 11}, {"# בדצמבר ##", 12}},
		[]nameOf{{"יום שני", 1}, {"יום שלישי", 2}, {"יום רביעי", 3}, {"יום חמישי", 4}, {"יום שישי", 5}, {"יום שבת", 6}, {"יום ראשון", 0}, {"יום ב׳", 1}, {"יום ג׳", 2}, {"יום ד׳", 3}, {"יום ה׳", 4}, {"יום ו׳", 5}, {"שבת", 6}, {"יום א׳", 0}},
		[]amountOf{{"לפני # שניות", 0, -1}, {"בעוד # שניות", 0, 1}, {"לפני ## שניות", 0, -1}, {"בעוד ## שניות", 0, 1}, {"לפני 2 דקות", 1, -2}, {"בעוד 2 דקות", 1, 2}, {"לפני # דקות", 1, -1}, {"בעוד # דקות", 1, 1}, {"לפני ## דקות", 1, -1}, {"בעוד ## דקות", 1, 1}, {"לפני שעתיים (2)", 2, -2}, {"בעוד שעתיים (2)", 2, 2}, {"לפני # שעות", 2, -1}, {"בעוד # שעות", 2, 1}, {"לפני ## שעות", 2, -1}, {"בעוד ## שעות", 2, 1}, {"לפני יומיים (2)", 3, -2}, {"בעוד יומיים (2)", 3, 2}, {"לפני # ימים", 3, -1}, {"בעוד # ימים", 3, 1}, {"לפני ## ימים", 3, -1}, {"בעוד ## ימים", 3, 1}, {"לפני שבועיים (2)", 4, -2}, {"בעוד שבועיים (2)", 4, 2}, {"לפני # שבועות", 4, -1}, {"בעוד # שבועות", 4, 1}, {"לפני ## שבועות", 4, -1}, {"בעוד ## שבועות", 4, 1}, {"לפני חודשיים (2)", 5, -2}, {"בעוד חודשיים (2)", 5, 2}, {"לפני # חודשים", 5, -1}, {"בעוד # חודשים", 5, 1}, {"לפני ## חודשים", 5, -1}, {"בעוד ## חודשים", 5, 1}, {"לפני שנתיים", 6, -2}, {"בעוד שנתיים", 6, 2}, {"לפני # שנים", 6, -1}, {"בעוד # שנים", 6, 1}, {"לפני ## שנים", 6, -1}, {"בעוד ## שנים", 6, 1}}},
	{"hi",
		[]nameOf{{"जनवरी", 1}, {"जन॰", 1}, {"फ़रवरी", 2}, {"फ़र॰", 2}, {"मार्च", 3}, {"अप्रैल", 4}, {"मई", 5}, {"जून", 6}, {"जुलाई", 7}, {"जुल॰", 7}, {"अगस्त", 8}, {"अग॰", 8}, {"सितंबर", 9}, {"सित॰", 9}, {"अक्टूबर", 10}, {"नवंबर", 11}, {"नव॰", 11}, {"दिसंबर", 12}, {"दिस॰", 12}},
		[]nameOf{{"# जनवरी ##", 1}, {"# फ़रवरी ##", 2}, {"# मार्च ##", 3}, {"# अप्रैल ##", 4}, {"# मई ##", 5}, {"# जून ##", 6}, {"# जुलाई ##", 7}, {"# अगस्त ##", 8}, {"# सितंबर ##", 9}, {"# अक्टूबर ##", 10}, {"# नवंबर ##", 11}, {"# दिसंबर ##", 12}},
		[]nameOf{{"सोमवार", 1}, {"मंगलवार", 2}, {"बुधवार", 3}, {"गुरुवार", 4}, {"शुक्रवार", 5}, {"शनिवार", 6}, {"रविवार", 0}, {"सोम", 1}, {"मंगल", 2}, {"बुध", 3}, {"गुरु", 4}, {"शुक्र", 5}, {"शनि", 6}, {"रवि", 0}},
		[]amountOf{{"1 सेकंड पहले", 0, -1}, {"1 सेकंड में", 0, 1}, {"2 सेकंड पहले", 0, -2}, {"2 सेकंड में", 0, 2}, {"# सेकंड पहले", 0, -1}, {"# सेकंड में", 0, 1}, {"## सेकंड पहले", 0, -1}, {"## सेकंड में", 0, 1}, {"1 मिनट पहले", 1, -1}, {"1 मिनट में", 1, 1}, {"2 मिनट पहले", 1, -2}, {"2 मिनट में", 1, 2}, {"# मिनट पहले", 1, -1}, {"# मिनट में", 1, 1}, {"## मिनट पहले", 1, -1}, {"## मिनट में", 1, 1}, {"1 घंटे पहले", 2, -1}, {"1 घंटे में", 2, 1}, {"2 घंटे पहले", 2, -2}, {"2 घंटे में", 2, 2}, {"# घंटे पहले", 2, -1}, {"# घंटे में", 2, 1}, {"## घंटे पहले", 2, -1}, {"## घंटे में", 2, 1}, {"1 दिन पहले", 3, -1}, {"1 दिन में", 3, 1}, {"2 दिन पहले", 3, -2}, {"2 दिन में", 3, 2}, {"# दिन पहले", 3, -1}, {"# दिन में", 3, 1}, {"## दिन पहले", 3, -1}, {"## दिन में", 3, 1}, {"1 सप्ताह पहले", 4, -1}, {"1 सप्ताह में", 4, 1}, {"2 सप्ताह पहले", 4, -2}, {"2 सप्ताह में", 4, 2}, {"# सप्ताह पहले", 4, -1}, {"# सप्ताह में", 4, 1}, {"## सप्ताह पहले", 4, -1}, {"## सप्ताह में", 4, 1}, {"1 माह पहले", 5, -1}, {"1 माह में", 5, 1}, {"2 माह पहले", 5, -2}, {"2 माह में", 5, 2}, {"# माह पहले", 5, -1}, {"# माह में", 5, 1}, {"## माह पहले", 5, -1}, {"## माह में", 5, 1}, {"1 वर्ष पहले", 6, -1}, {"1 वर्ष में", 6, 1}, {"2 वर्ष पहले", 6, -2}, {"2 वर्ष में", 6, 2}, {"# वर्ष पहले", 6, -1}, {"# वर्ष में", 6, 1}, {"## वर्ष पहले", 6, -1}, {"## वर्ष में", 6, 1}}},
	{"hr",
		[]nameOf{{"siječnja", 1}, {"siječanj", 1}, {"sij", 1}, {"veljače", 2}, {"veljača", 2}, {"velj", 2}, {"ožujka", 3}, {"ožujak", 3}, {"ožu", 3}, {"travnja", 4}, {"travanj", 4}, {"tra", 4}, {"svibnja", 5}, {"svibanj", 5}, {"svi", 5}, {"lipnja", 6}, {"lipanj", 6}, {"lip", 6}, {"srpnja", 7}, {"srpanj", 7}, {"srp", 7}, {"kolovoza", 8}, {"kolovoz", 8}, {"kol", 8}, {"rujna", 9}, {"rujan", 9}, {"ruj", 9}, {"listopada", 10}, {"listopad", 10}, {"lis", 10}, {"studenoga", 11}, {"studeni", 11}, {"stu", 11}, {"prosinca", 12}, {"prosinac", 12}, {"pro", 12}},
		[]nameOf{{"#. siječnja ##.", 1}, {"#. veljače ##.", 2}, {"#. ožujka ##.", 3}, {"#. travnja ##.", 4}, {"#. svibnja ##.", 5}, {"#. lipnja ##.", 6}, {"#. srpnja ##.", 7}, {"#. kolovoza ##.", 8}, {"#. rujna ##.", 9}, {"#. listopada ##.", 10}, {"#. studenoga ##.", 11}, {"#. prosinca ##.", 12}},
		[]nameOf{{"ponedjeljak", 1}, {"utorak", 2}, {"srijeda", 3}, {"četvrtak", 4}, {"petak", 5}, {"subota", 6}, {"nedjelja", 0}, {"pon", 1}, {"uto", 2}, {"sri", 3}, {"čet", 4}, {"pet", 5}, {"sub", 6}, {"ned", 0}},
		[]amountOf{{"prije 1 sekundu", 0, -1}, {"za 1 sekundu", 0, 1}, {"prije 2 sekunde", 0, -2}, {"za 2 sekunde", 0, 2}, {"prije # sekundi", 0, -1}, {"za # sekundi", 0, 1}, {"prije ## sekundi", 0, -1}, {"za ## sekundi", 0, 1}, {"prije 1 minutu", 1, -1}, {"za 1 minutu", 1, 1}, {"prije 2 minute", 1, -2}, {"za 2 minute", 1, 2}, {"prije # minuta", 1, -1}, {"za # minuta", 1, 1}, {"prije ## minuta", 1, -1}, {"za ## minuta", 1, 1}, {"prije 1 sat", 2, -1}, {"za 1 sat", 2, 1}, {"prije 2 sata", 2, -2}, {"za 2 sata", 2, 2}, {"prije # sati", 2, -1}, {"za # sati", 2, 1}, {"prije ## sati", 2, -1}, {"za ## sati", 2, 1}, {"prije 1 dan", 3, -1}, {"za 1 dan", 3, 1}, {"prije 2 dana", 3, -2}, {"za 2 dana", 3, 2}, {"prije # dana", 3, -1}, {"za # dana", 3, 1}, {"prije ## dana", 3, -1}, {"za ## dana", 3, 1}, {"prije 1 tjedan", 4, -1}, {"za 1 tjedan", 4, 1}, {"prije 2 tjedna", 4, -2}, {"za 2 tjedna", 4, 2}, {"prije # tjedana", 4, -1}, {"za # tjedana", 4, 1}, {"prije ## tjedana", 4, -1}, {"za ## tjedana", 4, 1}, {"prije 1 mjesec", 5, -1}, {"za 1 mjesec", 5, 1}, {"prije 2 mjeseca", 5, -2}, {"za 2 mjeseca", 5, 2}, {"prije # mjeseci", 5, -1}, {"za # mjeseci", 5, 1}, {"prije ## mjeseci", 5, -1}, {"za ## mjeseci", 5, 1}, {"prije 1 godinu", 6, -1}, {"za 1 godinu", 6, 1}, {"prije 2 godine", 6, -2}, {"za 2 godine", 6, 2}, {"prije # godina", 6, -1}, {"za # godina", 6, 1}, {"prije ## godina", 6, -1}, {"za ## godina", 6, 1}}},
	{"hsb",
		[]nameOf{{"januara", 1}, {"januar", 1}, {"jan.", 1}, {"februara", 2}, {"februar", 2}, {"feb.", 2}, {"měrca", 3}, {"měrc", 3}, {"měr.", 3}, {"apryla", 4}, {"apryl", 4}, {"apr.", 4}, {"meje", 5}, {"meja", 5}, {"mej.", 5}, {"junija", 6}, {"junij", 6}, {"jun.", 6}, {"julija", 7}, {"julij", 7}, {"jul.", 7}, {"awgusta", 8}, {"awgust", 8}, {"awg.", 8}, {"septembra", 9}, {"september", 9}, {"sep.", 9}, {"oktobra", 10}, {"oktober", 10}, {"okt.", 10}, {"nowembra", 11}, {"nowember", 11}, {"decembra", 12}, {"december", 12}, {"dec.", 12}},
		[]nameOf{{"#. januara ##", 1}, {"#. februara ##", 2}, {"#. měrca ##", 3}, {"#. apryla ##", 4}, {"#. meje ##", 5}, {"#. junija ##", 6}, {"#. julija ##", 7}, {"#. awgusta ##", 8}, {"#. septembra ##", 9}, {"#. oktobra ##", 10}, {"#. nowembra ##", 11}, {"#. decembra ##", 12}},
		[]nameOf{{"póndźela", 1}, {"wutora", 2}, {"srjeda", 3}, {"štwórtk", 4}, {"pjatk", 5}, {"sobota", 6}, {"njedźela", 0}, {"pón", 1}, {"wut", 2}, {"srj", 3}, {"štw", 4}, {"pja", 5}, {"sob", 6}, {"nje", 0}},
		[]amountOf{{"před 1 sekundu", 0, -1}, {"za 1 sekundu", 0, 1}, {"před # sekundami", 0, -1}, {"za # sekundow", 0, 1}, {"před ## sekundami", 0, -1}, {"za ## sekundow", 0, 1}, {"před 1 minutu", 1, -1}, {"za 1 minutu", 1, 1}, {"před # minutami", 1, -1}, {"za # minutow", 1, 1}, {"před ## minutami", 1, -1}, {"za ## minutow", 1, 1}, {"před 1 hodźinu", 2, -1}, {"za 1 hodźinu", 2, 1}, {"před # hodźinami", 2, -1}, {"za # hodźin", 2, 1}, {"před ## hodźinami", 2, -1}, {"za ## hodźin", 2, 1}, {"před 1 dnjom", 3, -1}, {"za 1 dźeń", 3, 1}, {"před # dnjemi", 3, -1}, {"za # dnjow", 3, 1}, {"před ## dnjemi", 3, -1}, {"za ## dnjow", 3, 1}, {"před 1 tydźenjom", 4, -1}, {"za 1 tydźeń", 4, 1}, {"před # tydźenjemi", 4, -1}, {"za # tydźenjow", 4, 1}, {"před ## tydźenjemi", 4, -1}, {"za ## tydźenjow", 4, 1}, {"před 1 měsacom", 5, -1}, {"za 1 měsac", 5, 1}, {"před # měsacami", 5, -1}, {"za # měsacow", 5, 1}, {"před ## měsacami", 5, -1}, {"za ## měsacow", 5, 1}, {"před 1 lětom", 6, -1}, {"za 1 lěto", 6, 1}, {"před # lětami", 6, -1}, {"za # lět", 6, 1}, {"před ## lětami", 6, -1}, {"za ## lět", 6, 1}}},
	{"hu",
		[]nameOf{{"január", 1}, {"jan.", 1}, {"február", 2}, {"febr.", 2}, {"március", 3}, {"márc.", 3}, {"április", 4}, {"ápr.", 4}, {"május", 5}, {"máj.", 5}, {"június", 6}, {"jún.", 6}, {"július", 7}, {"júl.", 7}, {"augusztus", 8}, {"aug.", 8}, {"szeptember", 9}, {"szept.", 9}, {"október", 10}, {"okt.", 10}, {"november", 11}, {"nov.", 11}, {"december", 12}, {"dec.", 12}},
		[]nameOf{{"##. január #.", 1}, {"##. február #.", 2}, {"##. március #.", 3}, {"##. április #.", 4}, {"##. május #.", 5}, {"##. június #.", 6}, {"##. július #.", 7}, {"##. augusztus #.", 8}, {"##. szeptember #.", 9}, {"##. október #.", 10}, {"##. november #.", 11}, {"##. december #.", 12}},
		[]nameOf{{"hétfő", 1}, {"kedd", 2}, {"szerda", 3}, {"csütörtök", 4}, {"péntek", 5}, {"szombat", 6}, {"vasárnap", 0}, {"H", 1}, {"K", 2}, {"Sze", 3}, {"Cs", 4}, {"Szo", 6}, {"V", 0}},
		[]amountOf{{"1 másodperccel ezelőtt", 0, -1}, {"1 másodperc múlva", 0, 1}, {"2 másodperccel ezelőtt", 0, -2}, {"2 másodperc múlva", 0, 2}, {"# másodperccel ezelőtt", 0, -1}, {"# másodperc múlva", 0, 1}, {"## másodperccel ezelőtt", 0, -1}, {"## másodperc múlva", 0, 1}, {"1 perccel ezelőtt", 1, -1}, {"1 perc múlva", 1, 1}, {"2 perccel ezelőtt", 1, -2}, {"2 perc múlva", 1, 2}, {"# perccel ezelőtt", 1, -1}, {"# perc múlva", 1, 1}, {"## perccel ezelőtt", 1, -1}, {"## perc múlva", 1, 1}, {"1 órával ezelőtt", 2, -1}, {"1 óra múlva", 2, 1}, {"2 órával ezelőtt", 2, -2}, {"2 óra múlva", 2, 2}, {"# órával ezelőtt", 2, -1}, {"# óra múlva", 2, 1}, {"## órával ezelőtt", 2, -1}, {"## óra múlva", 2, 1}, {"1 nappal ezelőtt", 3, -1}, {"1 nap múlva", 3, 1}, {"2 nappal ezelőtt", 3, -2}, {"2 nap múlva", 3, 2}, {"# nappal ezelőtt", 3, -1}, {"# nap múlva", 3, 1}, {"## nappal ezelőtt", 3, -1}, {"## nap múlva", 3, 1}, {"1 héttel ezelőtt", 4, -1}, {"1 hét múlva", 4, 1}, {"2 héttel ezelőtt", 4, -2}, {"2 hét múlva", 4, 2}, {"# héttel ezelőtt", 4, -1}, {"# hét múlva", 4, 1}, {"## héttel ezelőtt", 4, -1}, {"## hét múlva", 4, 1}, {"1 hónappal ezelőtt", 5, -1}, {"1 hónap múlva", 5, 1}, {"2 hónappal ezelőtt", 5, -2}, {"2 hónap múlva", 5, 2}, {"# hónappal ezelőtt", 5, -1}, {"# hónap múlva", 5, 1}, {"## hónappal ezelőtt", 5, -1}, {"## hónap múlva", 5, 1}, {"1 évvel ezelőtt", 6, -1}, {"1 év múlva", 6, 1}, {"2 évvel ezelőtt", 6, -2}, {"2 év múlva", 6, 2}, {"# évvel ezelőtt", 6, -1}, {"# év múlva", 6, 1}, {"## évvel ezelőtt", 6, -1}, {"## év múlva", 6, 1}}},
	{"hy",
		[]nameOf{{"հունվարի", 1}, {"հունվար", 1}, {"հնվ", 1}, {"փետրվարի", 2}, {"փետրվար", 2}, {"փտվ", 2}, {"մարտի", 3}, {"մարտ", 3}, {"մրտ", 3}, {"ապրիլի", 4}, {"ապրիլ", 4}, {"ապր", 4}, {"մայիսի", 5}, {"մայիս", 5}, {"մյս", 5}, {"հունիսի", 6}, {"հունիս", 6}, {"հնս", 6}, {"հուլիսի", 7}, {"հուլիս", 7}, {"հլս", 7}, {"օգոստոսի", 8}, {"օգոստոս", 8}, {"օգս", 8}, {"սեպտեմբերի", 9}, {"սեպտեմբեր", 9}, {"սեպ", 9}, {"հոկտեմբերի", 10}, {"հոկտեմբեր", 10}, {"հոկ", 10}, {"նոյեմբերի", 11}, {"նոյեմբեր", 11}, {"նոյ", 11}, {"դեկտեմբերի", 12}, {"դեկտեմբեր", 12}, {"դեկ", 12}},
		[]nameOf{},
		[]nameOf{{"երկուշաբթի", 1}, {"երեքշաբթի", 2}, {"չորեքշաբթի", 3}, {"հինգշաբթի", 4}, {"ուրբաթ", 5}, {"շաբաթ", 6}, {"կիրակի", 0}, {"երկ", 1}, {"երք", 2}, {"չրք", 3}, {"հնգ", 4}, {"ուր", 5}, {"շբթ", 6}, {"կիր", 0}},
		[]amountOf{{"1 վայրկյան առաջ", 0, -1}, {"1 վայրկյանից", 0, 1}, {"2 վայրկյան առաջ", 0, -2}, {"2 վայրկյանից", 0, 2}, {"# վայրկյան առաջ", 0, -1}, {"# վայրկյանից", 0, 1}, {"## վայրկյան առաջ", 0, -1}, {"## վայրկյանից", 0, 1}, {"1 րոպե առաջ", 1, -1}, {"1 րոպեից", 1, 1}, {"2 րոպե առաջ", 1, -2}, {"2 րոպեից", 1, 2}, {"# րոպե առաջ", 1, -1}, {"# րոպեից", 1, 1}, {"## րոպե առաջ", 1, -1}, {"## րոպեից", 1, 1}, {"1 ժամ առաջ", 2, -1}, {"1 ժամից", 2, 1}, {"2 ժամ առաջ", 2, -2}, {"2 ժամից", 2, 2}, {"# ժամ առաջ", 2, -1}, {"# ժամից", 2, 1}, {"## ժամ առաջ", 2, -1}, {"## ժամից", 2, 1}, {"1 օր առաջ", 3, -1}, {"1 օրից", 3, 1}, {"2 օր առաջ", 3, -2}, {"2 օրից", 3, 2}, {"# օր առաջ", 3, -1}, {"# օրից", 3, 1}, {"## օր առաջ", 3, -1}, {"## օրից", 3, 1}, {"1 շաբաթ առաջ", 4, -1}, {"1 շաբաթից", 4, 1}, {"2 շաբաթ առաջ", 4, -2}, {"2 շաբաթից", 4, 2}, {"# շաբաթ առաջ", 4, -1}, {"# շաբաթից", 4, 1}, {"## շաբաթ առաջ", 4, -1}, {"## շաբաթից", 4, 1}, {"1 ամիս առաջ", 5, -1}, {"1 ամսից", 5, 1}, {"2 ամիս առաջ", 5, -2}, {"2 ամսից", 5, 2}, {"# ամիս առաջ", 5, -1}, {"# ամսից", 5, 1}, {"## ամիս առաջ", 5, -1}, {"## ամսից", 5, 1}, {"1 տարի առաջ", 6, -1}, {"1 տարուց", 6, 1}, {"2 տարի առաջ", 6, -2}, {"2 տարուց", 6, 2}, {"# տարի առաջ", 6, -1}, {"# տարուց", 6, 1}, {"## տարի առաջ", 6, -1}, {"## տարուց", 6, 1}}},
	{"id",
		[]nameOf{{"Januari", 1}, {"Jan", 1}, {"Februari", 2}, {"Feb", 2}, {"Maret", 3}, {"Mar", 3}, {"April", 4}, {"Apr", 4}, {"Mei", 5}, {"Juni", 6}, {"Jun", 6}, {"Juli", 7}, {"Jul", 7}, {"Agustus", 8}, {"Agu", 8}, {"September", 9}, {"Sep", 9}, {"Oktober", 10}, {"Okt", 10}, {"November", 11}, {"Nov", 11}, {"Desember", 12}, {"Des", 12}},
		[]nameOf{{"# Januari ##", 1}, {"# Februari ##", 2}, {"# Maret ##", 3}, {"# April ##", 4}, {"# Mei ##", 5}, {"# Juni ##", 6}, {"# Juli ##", 7}, {"# Agustus ##", 8}, {"# September ##", 9}, {"# Oktober ##", 10}, {"# November ##", 11}, {"# Desember ##", 12}},
		[]nameOf{{"Senin", 1}, {"Selasa", 2}, {"Rabu", 3}, {"Kamis", 4}, {"Jumat", 5}, {"Sabtu", 6}, {"Minggu", 0}, {"Sen", 1}, {"Sel", 2}, {"Rab", 3}, {"Kam", 4}, {"Jum", 5}, {"Sab", 6}, {"Min", 0}},
		[]amountOf{{"1 detik yang lalu", 0, -1}, {"dalam 1 detik", 0, 1}, {"2 detik yang lalu", 0, -2}, {"dalam 2 detik", 0, 2}, {"# detik yang lalu", 0, -1}, {"dalam # detik", 0, 1}, {"## detik yang lalu", 0, -1}, {"dalam ## detik", 0, 1}, {"1 menit yang lalu", 1, -1}, {"dalam 1 menit", 1, 1}, {"2 menit yang lalu", 1, -2}, {"dalam 2 menit", 1, 2}, {"# menit yang lalu", 1, -1}, {"dalam # menit", 1, 1}, {"## menit yang lalu", 1, -1}, {"dalam ## menit", 1, 1}, {"1 jam yang lalu", 2, -1}, {"dalam 1 jam", 2, 1}, {"2 jam yang lalu", 2, -2}, {"dalam 2 jam", 2, 2}, {"# jam yang lalu", 2, -1}, {"dalam # jam", 2, 1}, {"## jam yang lalu", 2, -1}, {"dalam ## jam", 2, 1}, {"1 hari yang lalu", 3, -1}, {"dalam 1 hari", 3, 1}, {"2 hari yang lalu", 3, -2}, {"dalam 2 hari", 3, 2}, {"# hari yang lalu", 3, -1}, {"dalam # hari", 3, 1}, {"## hari yang lalu", 3, -1}, {"dalam ## hari", 3, 1}, {"1 minggu yang lalu", 4, -1}, {"dalam 1 minggu", 4, 1}, {"2 minggu yang lalu", 4, -2}, {"dalam 2 minggu", 4, 2}, {"# minggu yang lalu", 4, -1}, {"dalam # minggu", 4, 1}, {"## minggu yang lalu", 4, -1}, {"dalam ## minggu", 4, 1}, {"1 bulan yang lalu", 5, -1}, {"dalam 1 bulan", 5, 1}, {"2 bulan yang lalu", 5, -2}, {"dalam 2 bulan", 5, 2}, {"# bulan yang lalu", 5, -1}, {"dalam # bulan", 5, 1}, {"## bulan yang lalu", 5, -1}, {"dalam ## bulan", 5, 1}, {"1 tahun yang lalu", 6, -1}, {"dalam 1 tahun", 6, 1}, {"2 tahun yang lalu", 6, -2}, {"dalam 2 tahun", 6, 2}, {"# tahun yang lalu", 6, -1}, {"dalam # tahun", 6, 1}, {"## tahun yang lalu", 6, -1}, {"dalam ## tahun", 6, 1}}},
	{"ig",
		[]nameOf{{"Jenụwarị", 1}, {"Jen", 1}, {"Febrụwarị", 2}, {"Feb", 2}, {"Maachị", 3}, {"Maa", 3}, {"Epr", 4}, {"Mee", 5}, {"Juu", 6}, {"Julaị", 7}, {"Jul", 7}, {"Ọgọọst", 8}, {"Ọgọ", 8}, {"Septemba", 9}, {"Sep", 9}, {"Ọktoba", 10}, {"Ọkt", 10}, {"Novemba", 11}, {"Nov", 11}, {"Disemba", 12}, {"Dis", 12}},
		[]nameOf{{"# Jenụwarị ##", 1}, {"# Febrụwarị ##", 2}, {"# Maachị ##", 3}, {"# Mee ##", 5}, {"# Julaị ##", 7}, {"# Ọgọọst ##", 8}, {"# Septemba ##", 9}, {"# Ọktoba ##", 10}, {"# Novemba ##", 11}, {"# Disemba ##", 12}},
		[]nameOf{{"Mọnde", 1}, {"Tiuzdee", 2}, {"Wenezdee", 3}, {"Tọọzdee", 4}, {"Fraịdee", 5}, {"Satọdee", 6}, {"Mọn", 1}, {"Tiu", 2}, {"Wen", 3}, {"Tọọ", 4}, {"Fraị", 5}, {"Sat", 6}},
		[]amountOf{}},
	{"ii",
		[]nameOf{{"ꋍꆪ", 1}, {"1", 1}, {"ꑍꆪ", 2}, {"2", 2}, {"ꌕꆪ", 3}, {"3", 3}, {"ꇖꆪ", 4}, {"4", 4}, {"ꉬꆪ", 5}, {"5", 5}, {"ꃘꆪ", 6}, {"6", 6}, {"ꏃꆪ", 7}, {"7", 7}, {"ꉆꆪ", 8}, {"8", 8}, {"ꈬꆪ", 9}, {"9", 9}, {"ꊰꆪ", 10}, {"10", 10}, {"11", 11}, {"ꊰꑋꆪ", 12}, {"12", 12}},
		[]nameOf{{"## ꋍꆪ #", 1}, {"## ꑍꆪ #", 2}, {"## ꌕꆪ #", 3}, {"## ꇖꆪ #", 4}, {"## ꉬꆪ #", 5}, {"## ꃘꆪ #", 6}, {"## ꏃꆪ #", 7}, {"## ꉆꆪ #", 8}, {"## ꈬꆪ #", 9}, {"## ꊰꆪ #", 10}, {"## ꊰꑋꆪ #", 12}},
		[]nameOf{{"ꆏꊂꋍ", 1}, {"ꆏꊂꑍ", 2}, {"ꆏꊂꌕ", 3}, {"ꆏꊂꇖ", 4}, {"ꆏꊂꉬ", 5}, {"ꆏꊂꃘ", 6}, {"ꆏꋍ", 1}, {"ꆏꑍ", 2}, {"ꆏꌕ", 3}, {"ꆏꇖ", 4}, {"ꆏꉬ", 5}, {"ꆏꃘ", 6}},
		[]amountOf{}},
	{"is",
		[]nameOf{{"janúar", 1}, {"jan.", 1}, {"febrúar", 2}, {"feb.", 2}, {"mars", 3}, {"mar.", 3}, {"apríl", 4}, {"apr.", 4}, {"maí", 5}, {"júní", 6}, {"jún.", 6}, {"júlí", 7}, {"júl.", 7}, {"ágúst", 8}, {"ágú.", 8}, {"september", 9}, {"sep.", 9}, {"október", 10}, {"okt.", 10}, {"nóvember", 11}, {"nóv.", 11}, {"desember", 12}, {"des.", 12}},
		[]nameOf{{"#. janúar ##", 1}, {"#. febrúar ##", 2}, {"#. mars ##", 3}, {"#. apríl ##", 4}, {"#. maí ##", 5}, {"#. júní ##", 6}, {"#. júlí ##", 7}, {"#. ágúst ##", 8}, {"#. september ##", 9}, {"#. október ##", 10}, {"#. nóvember ##", 11}, {"#. desember ##", 12}},
		[]nameOf{{"mánudagur", 1}, {"þriðjudagur", 2}, {"miðvikudagur", 3}, {"fimmtudagur", 4}, {"föstudagur", 5}, {"laugardagur", 6}, {"sunnudagur", 0}, {"þri.", 2}, {"mið.", 3}, {"fim.", 4}, {"fös.", 5}, {"lau.", 6}, {"sun.", 0}},
		[]amountOf{{"fyrir 1 sekúndu", 0, -1}, {"eftir 1 sekúndu", 0, 1}, {"fyrir 2 sekúndum", 0, -2}, {"eftir 2 sekúndur", 0, 2}, {"fyrir # sekúndum", 0, -1}, {"eftir # sekúndur", 0, 1}, {"fyrir ## sekúndum", 0, -1}, {"eftir ## sekúndur", 0, 1}, {"fyrir 1 mínútu", 1, -1}, {"eftir 1 mínútu", 1, 1}, {"fyrir 2 mínútum", 1, -2}, {"eftir 2 mínútur", 1, 2}, {"fyrir # mínútum", 1, -1}, {"eftir # mínútur", 1, 1}, {"fyrir ## mínútum", 1, -1}, {"eftir ## mínútur", 1, 1}, {"fyrir 1 klukkustund", 2, -1}, {"eftir 1 klukkustund", 2, 1}, {"fyrir 2 klukkustundum", 2, -2}, {"eftir 2 klukkustundir", 2, 2}, {"fyrir # klukkustundum", 2, -1}, {"eftir # klukkustundir", 2, 1}, {"fyrir ## klukkustundum", 2, -1}, {"eftir ## klukkustundir", 2, 1}, {"fyrir 1 degi", 3, -1}, {"eftir 1 dag", 3, 1}, {"fyrir 2 dögum", 3, -2}, {"eftir 2 daga", 3, 2}, {"fyrir # dögum", 3, -1}, {"eftir # daga", 3, 1}, {"fyrir ## dögum", 3, -1}, {"eftir ## daga", 3, 1}, {"fyrir 1 viku", 4, -1}, {"eftir 1 viku", 4, 1}, {"fyrir 2 vikum", 4, -2}, {"eftir 2 vikur", 4, 2}, {"fyrir # vikum", 4, -1}, {"eftir # vikur", 4, 1}, {"fyrir ## vikum", 4, -1}, {"eftir ## vikur", 4, 1}, {"fyrir 1 mánuði", 5, -1}, {"eftir 1 mánuð", 5, 1}, {"fyrir 2 mánuðum", 5, -2}, {"eftir 2 mánuði", 5, 2}, {"fyrir # mánuðum", 5, -1}, {"eftir # mánuði", 5, 1}, {"fyrir ## mánuðum", 5, -1}, {"eftir ## mánuði", 5, 1}, {"fyrir 1 ári", 6, -1}, {"eftir 1 ár", 6, 1}, {"fyrir 2 árum", 6, -2}, {"eftir 2 ár", 6, 2}, {"fyrir # árum", 6, -1}, {"eftir # ár", 6, 1}, {"fyrir ## árum", 6, -1}, {"eftir ## ár", 6, 1}}},
	{"it",
		[]nameOf{{"gennaio", 1}, {"gen", 1}, {"febbraio", 2}, {"feb", 2}, {"marzo", 3}, {"aprile", 4}, {"apr", 4}, {"maggio", 5}, {"mag", 5}, {"giugno", 6}, {"giu", 6}, {"luglio", 7}, {"lug", 7}, {"agosto", 8}, {"ago", 8}, {"settembre", 9}, {"set", 9}, {"ottobre", 10}, {"ott", 10}, {"novembre", 11}, {"nov", 11}, {"dicembre", 12}, {"dic", 12}},
		[]nameOf{{"# gennaio ##", 1}, {"# febbraio ##", 2}, {"# marzo ##", 3}, {"# aprile ##", 4}, {"# maggio ##", 5}, {"# giugno ##", 6}, {"# luglio ##", 7}, {"# agosto ##", 8}, {"# settembre ##", 9}, {"# ottobre ##", 10}, {"# novembre ##", 11}, {"# dicembre ##", 12}},
		[]nameOf{{"lunedì", 1}, {"martedì", 2}, {"mercoledì", 3}, {"giovedì", 4}, {"venerdì", 5}, {"sabato", 6}, {"domenica", 0}, {"lun", 1}, {"mer", 3}, {"gio", 4}, {"ven", 5}, {"sab", 6}, {"dom", 0}},
		[]amountOf{{"1 secondo fa", 0, -1}, {"tra 1 secondo", 0, 1}, {"2 secondi fa", 0, -2}, {"tra 2 secondi", 0, 2}, {"# secondi fa", 0, -1}, {"tra # secondi", 0, 1}, {"## secondi fa", 0, -1}, {"tra ## secondi", 0, 1}, {"1 minuto fa", 1, -1}, {"tra 1 minuto", 1, 1}, {"2 minuti fa", 1, -2}, {"tra 2 minuti", 1, 2}, {"# minuti fa", 1, -1}, {"tra # minuti", 1, 1}, {"## minuti fa", 1, -1}, {"tra ## minuti", 1, 1}, {"1 ora fa", 2, -1}, {"tra 1 ora", 2, 1}, {"2 ore fa", 2, -2}, {"tra 2 ore", 2, 2}, {"# ore fa", 2, -1}, {"tra # ore", 2, 1}, {"## ore fa", 2, -1}, {"tra ## ore", 2, 1}, {"1 giorno fa", 3, -1}, {"tra 1 giorno", 3, 1}, {"2 giorni fa", 3, -2}, {"tra 2 giorni", 3, 2}, {"# giorni fa", 3, -1}, {"tra # giorni", 3, 1}, {"## giorni fa", 3, -1}, {"tra ## giorni", 3, 1}, {"1 settimana fa", 4, -1}, {"tra 1 settimana", 4, 1}, {"2 settimane fa", 4, -2}, {"tra 2 settimane", 4, 2}, {"# settimane fa", 4, -1}, {"tra # settimane", 4, 1}, {"## settimane fa", 4, -1}, {"tra ## settimane", 4, 1}, {"1 mese fa", 5, -1}, {"tra 1 mese", 5, 1}, {"2 mesi fa", 5, -2}, {"tra 2 mesi", 5, 2}, {"# mesi fa", 5, -1}, {"tra # mesi", 5, 1}, {"## mesi fa", 5, -1}, {"tra ## mesi", 5, 1}, {"1 anno fa", 6, -1}, {"tra 1 anno", 6, 1}, {"2 anni fa", 6, -2}, {"tra 2 anni", 6, 2}, {"# anni fa", 6, -1}, {"tra # anni", 6, 1}, {"## anni fa", 6, -1}, {"tra ## anni", 6, 1}}},
	{"ja",
		[]nameOf{{"1", 1}, {"1月", 1}, {"2", 2}, {"2月", 2}, {"3", 3}, {"3月", 3}, {"4", 4}, {"4月", 4}, {"5", 5}, {"5月", 5}, {"6", 6}, {"6月", 6}, {"7", 7}, {"7月", 7}, {"8", 8}, {"8月", 8}, {"9", 9}, {"9月", 9}, {"10", 10}, {"10月", 10}, {"11", 11}, {"11月", 11}, {"12", 12}, {"12月", 12}},
		[]nameOf{{"##年1月#日", 1}, {"##年2月#日", 2}, {"##年3月#日", 3}, {"##年4月#日", 4}, {"##年5月#日", 5}, {"##年6月#日", 6}, {"##年7月#日", 7}, {"##年8月#日", 8}, {"##年9月#日", 9}, {"##年10月#日", 10}, {"##年11月#日", 11}, {"##年12月#日", 12}},
		[]nameOf{{"月曜日", 1}, {"火曜日", 2}, {"水曜日", 3}, {"木曜日", 4}, {"金曜日", 5}, {"土曜日", 6}, {"日曜日", 0}, {"月", 1}, {"火", 2}, {"水", 3}, {"木", 4}, {"金", 5}, {"土", 6}},
		[]amountOf{{"1 秒前", 0, -1}, {"1 秒後", 0, 1}, {"2 秒前", 0, -2}, {"2 秒後", 0, 2}, {"# 秒前", 0, -1}, {"# 秒後", 0, 1}, {"## 秒前", 0, -1}, {"## 秒後", 0, 1}, {"1 分前", 1, -1}, {"1 分後", 1, 1}, {"2 分前", 1, -2}, {"2 分後", 1, 2}, {"# 分前", 1, -1}, {"# 分後", 1, 1}, {"## 分前", 1, -1}, {"## 分後", 1, 1}, {"1 時間前", 2, -1}, {"1 時間後", 2, 1}, {"2 時間前", 2, -2}, {"2 時間後", 2, 2}, {"# 時間前", 2, -1}, {"# 時間後", 2, 1}, {"## 時間前", 2, -1}, {"## 時間後", 2, 1}, {"1 日前", 3, -1}, {"1 日後", 3, 1}, {"2 日前", 3, -2}, {"2 日後", 3, 2}, {"# 日前", 3, -1}, {"# 日後", 3, 1}, {"## 日前", 3, -1}, {"## 日後", 3, 1}, {"1 週間前", 4, -1}, {"1 週間後", 4, 1}, {"2 週間前", 4, -2}, {"2 週間後", 4, 2}, {"# 週間前", 4, -1}, {"# 週間後", 4, 1}, {"## 週間前", 4, -1}, {"## 週間後", 4, 1}, {"1 か月前", 5, -1}, {"1 か月後", 5, 1}, {"2 か月前", 5, -2}, {"2 か月後", 5, 2}, {"# か月前", 5, -1}, {"# か月後", 5, 1}, {"## か月前", 5, -1}, {"## か月後", 5, 1}, {"1 年前", 6, -1}, {"1 年後", 6, 1}, {"2 年前", 6, -2}, {"2 年後", 6, 2}, {"# 年前", 6, -1}, {"# 年後", 6, 1}, {"## 年前", 6, -1}, {"## 年後", 6, 1}}},
	{"jgo",
		[]nameOf{{"Nduŋmbi Saŋ", 1}, {"Pɛsaŋ Pɛ́pá", 2}, {"Pɛsaŋ Pɛ́tát", 3}, {"Pɛsaŋ Pɛ́nɛ́kwa", 4}, {"Pɛsaŋ Pataa", 5}, {"Pɛsaŋ Pɛ́nɛ́ntúkú", 6}, {"Pɛsaŋ Saambá", 7}, {"Pɛsaŋ Pɛ́nɛ́fɔm", 8}, {"Pɛsaŋ Pɛ́nɛ́pfúꞋú", 9}, {"Pɛsaŋ Nɛgɛ́m", 10}, {"Pɛsaŋ Ntsɔ̌pmɔ́", 11}, {"Pɛsaŋ Ntsɔ̌ppá", 12}},
		[]nameOf{{"## Nduŋmbi Saŋ #", 1}, {"## Pɛsaŋ Pɛ́pá #", 2}, {"## Pɛsaŋ Pɛ́tát #", 3}, {"## Pɛsaŋ Pɛ́nɛ́kwa #", 4}, {"## Pɛsaŋ Pataa #", 5}, {"## Pɛsaŋ Pɛ́nɛ́ntúkú #", 6}, {"## Pɛsaŋ Saambá #", 7}, {"## Pɛsaŋ Pɛ́nɛ́fɔm #", 8}, {"## Pɛsaŋ Pɛ́nɛ́pfúꞋú #", 9}, {"## Pɛsaŋ Nɛgɛ́m #", 10}, {"## Pɛsaŋ Ntsɔ̌pmɔ́ #", 11}, {"## Pɛsaŋ Ntsɔ̌ppá #", 12}},
		[]nameOf{{"Mɔ́ndi", 1}, {"Ápta Mɔ́ndi", 2}, {"Wɛ́nɛsɛdɛ", 3}, {"Tɔ́sɛdɛ", 4}, {"Fɛlâyɛdɛ", 5}, {"Sásidɛ", 6}, {"Sɔ́ndi", 0}},
		[]amountOf{{"ɛ́ gɛ́ mɔ́ minút 1", 1, -1}, {"nǔu 1 minút", 1, 1}, {"ɛ́ gɛ́ mɔ́ minút 2", 1, -2}, {"nǔu 2 minút", 1, 2}, {"ɛ́ gɛ́ mɔ́ minút #", 1, -1}, {"nǔu # minút", 1, 1}, {"ɛ́ gɛ́ mɔ́ minút ##", 1, -1}, {"nǔu ## minút", 1, 1}, {"ɛ́ gɛ mɔ́ 1 háwa", 2, -1}, {"nǔu háwa 1", 2, 1}, {"ɛ́ gɛ mɔ́ 2 háwa", 2, -2}, {"nǔu háwa 2", 2, 2}, {"ɛ́ gɛ mɔ́ # háwa", 2, -1}, {"nǔu háwa #", 2, 1}, {"ɛ́ gɛ mɔ́ ## háwa", 2, -1}, {"nǔu háwa ##", 2, 1}, {"Ɛ́ gɛ́ mɔ́ lɛ́Ꞌ 1", 3, -1}, {"Nǔu lɛ́Ꞌ 1", 3, 1}, {"Ɛ́ gɛ́ mɔ́ lɛ́Ꞌ 2", 3, -2}, {"Nǔu lɛ́Ꞌ 2", 3, 2}, {"Ɛ́ gɛ́ mɔ́ lɛ́Ꞌ #", 3, -1}, {"Nǔu lɛ́Ꞌ #", 3, 1}, {"Ɛ́ gɛ́ mɔ́ lɛ́Ꞌ ##", 3, -1}, {"Nǔu lɛ́Ꞌ ##", 3, 1}, {"Ɛ́ gɛ́ mɔ 1 ŋgap-mbi", 4, -1}, {"Nǔu ŋgap-mbi 1", 4, 1}, {"Ɛ́ gɛ́ mɔ 2 ŋgap-mbi", 4, -2}, {"Nǔu ŋgap-mbi 2", 4, 2}, {"Ɛ́ gɛ́ mɔ # ŋgap-mbi", 4, -1}, {"Nǔu ŋgap-mbi #", 4, 1}, {"Ɛ́ gɛ́ mɔ ## ŋgap-mbi", 4, -1}, {"Nǔu ŋgap-mbi ##", 4, 1}, {"ɛ́ gɛ́ mɔ́ pɛsaŋ 1", 5, -1}, {"Nǔu 1 saŋ", 5, 1}, {"ɛ́ gɛ́ mɔ́ pɛsaŋ 2", 5, -2}, {"Nǔu 2 saŋ", 5, 2}, {"ɛ́ gɛ́ mɔ́ pɛsaŋ #", 5, -1}, {"Nǔu # saŋ", 5, 1}, {"ɛ́ gɛ́ mɔ́ pɛsaŋ ##", 5, -1}, {"Nǔu ## saŋ", 5, 1}, {"Ɛ́gɛ́ mɔ́ ŋguꞋ 1", 6, -1}, {"Nǔu ŋguꞋ 1", 6, 1}, {"Ɛ́gɛ́ mɔ́ ŋguꞋ 2", 6, -2}, {"Nǔu ŋguꞋ 2", 6, 2}, {"Ɛ́gɛ́ mɔ́ ŋguꞋ #", 6, -1}, {"Nǔu ŋguꞋ #", 6, 1}, {"Ɛ́gɛ́ mɔ́ ŋguꞋ ##", 6, -1}, {"Nǔu ŋguꞋ ##", 6, 1}}},
	{"jmc",
		[]nameOf{{"Januari", 1}, {"Jan", 1}, {"Februari", 2}, {"Feb", 2}, {"Machi", 3}, {"Mac", 3}, {"Aprilyi", 4}, {"Apr", 4}, {"Mei", 5}, {"Junyi", 6}, {"Jun", 6}, {"Julyai", 7}, {"Jul", 7}, {"Agusti", 8}, {"Ago", 8}, {"Septemba", 9}, {"Sep", 9}, {"Oktoba", 10}, {"Okt", 10}, {"Novemba", 11}, {"Nov", 11}, {"Desemba", 12}, {"Des", 12}},
		[]nameOf{{"# Januari ##", 1}, {"# Februari ##", 2}, {"# Machi ##", 3}, {"# Aprilyi ##", 4}, {"# Mei ##", 5}, {"# Junyi ##", 6}, {"# Julyai ##", 7}, {"# Agusti ##", 8}, {"# Septemba ##", 9}, {"# Oktoba ##", 10}, {"# Novemba ##", 11}, {"# Desemba ##", 12}},
		[]nameOf{{"Jumatatuu", 1}, {"Jumanne", 2}, {"Jumatanu", 3}, {"Alhamisi", 4}, {"Ijumaa", 5}, {"Jumamosi", 6}, {"Jumapilyi", 0}, {"Jtt", 1}, {"Jnn", 2}, {"Jtn", 3}, {"Alh", 4}, {"Iju", 5}, {"Jmo", 6}, {"Jpi", 0}},
		[]amountOf{}},
	{"ka",
		[]nameOf{{"იანვარი", 1}, {"იან", 1}, {"თებერვალი", 2}, {"თებ", 2}, {"მარტი", 3}, {"მარ", 3}, {"აპრილი", 4}, {"აპრ", 4}, {"მაისი", 5}, {"მაი", 5}, {"ივნისი", 6}, {"ივნ", 6}, {"ივლისი", 7}, {"ივლ", 7}, {"აგვისტო", 8}, {"აგვ", 8}, {"სექტემბერი", 9}, {"სექ", 9}, {"ოქტომბერი", 10}, {"ოქტ", 10}, {"ნოემბერი", 11}, {"ნოე", 11}, {"დეკემბერი", 12}, {"დეკ", 12}},
		[]nameOf{{"# იანვარი, ##", 1}, {"# თებერვალი, ##", 2}, {"# მარტი, ##", 3}, {"# აპრილი, ##", 4}, {"# მაისი, ##", 5}, {"# ივნისი, ##", 6}, {"# ივლისი, ##", 7}, {"# აგვისტო, ##", 8}, {"# სექტემბერი, ##", 9}, {"# ოქტომბერი, ##", 10}, {"# ნოემბერი, ##", 11}, {"# დეკემბერი, ##", 12}},
		[]nameOf{{"ორშაბათი", 1}, {"სამშაბათი", 2}, {"ოთხშაბათი", 3}, {"ხუთშაბათი", 4}, {"პარასკევი", 5}, {"შაბათი", 6}, {"კვირა", 0}, {"ორშ", 1}, {"სამ", 2}, {"ოთხ", 3}, {"ხუთ", 4}, {"პარ", 5}, {"შაბ", 6}, {"კვი", 0}},
		[]amountOf{{"1 წამის წინ", 0, -1}, {"1 წამში", 0, 1}, {"2 წამის წინ", 0, -2}, {"2 წამში", 0, 2}, {"# წამის წინ", 0, -1}, {"# წამში", 0, 1}, {"## წამის წინ", 0, -1}, {"## წამში", 0, 1}, {"1 წუთის წინ", 1, -1}, {"1 წუთში", 1, 1}, {"2 წუთის წინ", 1, -2}, {"2 წუთში", 1, 2}, {"# წუთის წინ", 1, -1}, {"# წუთში", 1, 1}, {"## წუთის წინ", 1, -1}, {"## წუთში", 1, 1}, {"1 საათის წინ", 2, -1}, {"1 საათში", 2, 1}, {"2 საათის წინ", 2, -2}, {"2 საათში", 2, 2}, {"# საათის წინ", 2, -1}, {"# საათში", 2, 1}, {"## საათის წინ", 2, -1}, {"## საათში", 2, 1}, {"1 დღის წინ", 3, -1}, {"1 დღეში", 3, 1}, {"2 დღის წინ", 3, -2}, {"2 დღეში", 3, 2}, {"# დღის წინ", 3, -1}, {"# დღეში", 3, 1}, {"## დღის წინ", 3, -1}, {"## დღეში", 3, 1}, {"1 კვირის წინ", 4, -1}, {"1 კვირაში", 4, 1}, {"2 კვირის წინ", 4, -2}, {"2 კვირაში", 4, 2}, {"# კვირის წინ", 4, -1}, {"# კვირაში", 4, 1}, {"## კვირის წინ", 4, -1}, {"## კვირაში", 4, 1}, {"1 თვის წინ", 5, -1}, {"1 თვეში", 5, 1}, {"2 თვის წინ", 5, -2}, {"2 თვეში", 5, 2}, {"# თვის წინ", 5, -1}, {"# თვეში", 5, 1}, {"## თვის წინ", 5, -1}, {"## თვეში", 5, 1}, {"1 წლის წინ", 6, -1}, {"1 წელიწადში", 6, 1}, {"2 წლის წინ", 6, -2}, {"2 წელიწადში", 6, 2}, {"# წლის წინ", 6, -1}, {"# წელიწადში", 6, 1}, {"## წლის წინ", 6, -1}, {"## წელიწადში", 6, 1}}},
	{"kab",
		[]nameOf{{"Yennayer", 1}, {"Yen", 1}, {"Fuṛar", 2}, {"Fur", 2}, {"Meɣres", 3}, {"Meɣ", 3}, {"Yebrir", 4}, {"Yeb", 4}, {"Mayyu", 5}, {"May", 5}, {"Yunyu", 6}, {"Yun", 6}, {"Yulyu", 7}, {"Yul", 7}, {"Ɣuct", 8}, {"Ɣuc", 8}, {"Ctembeṛ", 9}, {"Cte", 9}, {"Tubeṛ", 10}, {"Tub", 10}, {"Nunembeṛ", 11}, {"Nun", 11}, {"Duǧembeṛ", 12}, {"Duǧ", 12}},
		[]nameOf{{"# Yennayer ##", 1}, {"# Fuṛar ##", 2}, {"# Meɣres ##", 3}, {"# Yebrir ##", 4}, {"# Mayyu ##", 5}, {"# Yunyu ##", 6}, {"# Yulyu ##", 7}, {"# Ɣuct ##", 8}, {"# Ctembeṛ ##", 9}, {"# Tubeṛ ##", 10}, {"# Nunembeṛ ##", 11}, {"# Duǧembeṛ ##", 12}},
		[]nameOf{},
		[]amountOf{}},
	{"kam",
		[]nameOf{{"Mwai wa mbee", 1}, {"Mbe", 1}, {"Mwai wa kelĩ", 2}, {"Kel", 2}, {"Mwai wa katatũ", 3}, {"Ktũ", 3}, {"Mwai wa kana", 4}, {"Kan", 4}, {"Mwai wa katano", 5}, {"Ktn", 5}, {"Mwai wa thanthatũ", 6}, {"Tha", 6}, {"Mwai wa muonza", 7}, {"Moo", 7}, {"Mwai wa nyaanya", 8}, {"Nya", 8}, {"Mwai wa kenda", 9}, {"Knd", 9}, {"Mwai wa ĩkumi", 10}, {"Ĩku", 10}, {"Mwai wa ĩkumi na ĩmwe", 11}, {"Ĩkm", 11}, {"Mwai wa ĩkumi na ilĩ", 12}, {"Ĩkl", 12}},
		[]nameOf{{"# Mwai wa mbee ##", 1}, {"# Mwai wa kelĩ ##", 2}, {"# Mwai wa katatũ ##", 3}, {"# Mwai wa kana ##", 4}, {"# Mwai wa katano ##", 5}, {"# Mwai wa thanthatũ ##", 6}, {"# Mwai wa muonza ##", 7}, {"# Mwai wa nyaanya ##", 8}, {"# Mwai wa kenda ##", 9}, {"# Mwai wa ĩkumi ##", 10}, {"# Mwai wa ĩkumi na ĩmwe ##", 11}, {"# Mwai wa ĩkumi na ilĩ ##", 12}},
		[]nameOf{{"Wa kwambĩlĩlya", 1}, {"Wa kelĩ", 2}, {"Wa katatũ", 3}, {"Wa kana", 4}, {"Wa katano", 5}, {"Wa thanthatũ", 6}, {"Wa kyumwa", 0}, {"Wkw", 1}, {"Wkl", 2}, {"Wtũ", 3}, {"Wkn", 4}, {"Wtn", 5}, {"Wth", 6}, {"Wky", 0}},
		[]amountOf{}},
	{"kde",
		[]nameOf{{"Mwedi Ntandi", 1}, {"Jan", 1}, {"Mwedi wa Pili", 2}, {"Feb", 2}, {"Mwedi wa Tatu", 3}, {"Mac", 3}, {"Mwedi wa Nchechi", 4}, {"Apr", 4}, {"Mwedi wa Nnyano", 5}, {"Mei", 5}, {"Mwedi wa Nnyano na Umo", 6}, {"Jun", 6}, {"Mwedi wa Nnyano na Mivili", 7}, {"Jul", 7}, {"Mwedi wa Nnyano na Mitatu", 8}, {"Ago", 8}, {"Mwedi wa Nnyano na Nchechi", 9}, {"Sep", 9}, {"Mwedi wa Nnyano na Nnyano", 10}, {"Okt", 10}, {"Mwedi wa Nnyano na Nnyano na U", 11}, {"Nov", 11}, {"Mwedi wa Nnyano na Nnyano na M", 12}, {"Des", 12}},
		[]nameOf{{"# Mwedi Ntandi ##", 1}, {"# Mwedi wa Pili ##", 2}, {"# Mwedi wa Tatu ##", 3}, {"# Mwedi wa Nchechi ##", 4}, {"# Mwedi wa Nnyano ##", 5}, {"# Mwedi wa Nnyano na Umo ##", 6}, {"# Mwedi wa Nnyano na Mivili ##", 7}, {"# Mwedi wa Nnyano na Mitatu ##", 8}, {"# Mwedi wa Nnyano na Nchechi ##", 9}, {"# Mwedi wa Nnyano na Nnyano ##", 10}, {"# Mwedi wa Nnyano na Nnyano na U ##", 11}, {"# Mwedi wa Nnyano na Nnyano na M ##", 12}},
		[]nameOf{{"Liduva lyatatu", 1}, {"Liduva lyanchechi", 2}, {"Liduva lyannyano", 3}, {"Liduva lyannyano na linji", 4}, {"Liduva lyannyano na mavili", 5}, {"Liduva litandi", 6}, {"Liduva lyapili", 0}, {"Ll3", 1}, {"Ll4", 2}, {"Ll5", 3}, {"Ll6", 4}, {"Ll7", 5}, {"Ll1", 6}, {"Ll2", 0}},
		[]amountOf{}},
	{"kea",
		[]nameOf{{"Janeru", 1}, {"Jan", 1}, {"Febreru", 2}, {"Feb", 2}, {"Marsu", 3}, {"Mar", 3}, {"Abril", 4}, {"Abr", 4}, {"Maiu", 5}, {"Mai", 5}, {"Junhu", 6}, {"Jun", 6}, {"Julhu", 7}, {"Jul", 7}, {"Agostu", 8}, {"Ago", 8}, {"Setenbru", 9}, {"Set", 9}, {"Otubru", 10}, {"Otu", 10}, {"Nuvenbru", 11}, {"Nuv", 11}, {"Dizenbru", 12}, {"Diz", 12}},
		[]nameOf{},
		[]nameOf{{"sigunda-fera", 1}, {"tersa-fera", 2}, {"kuarta-fera", 3}, {"kinta-fera", 4}, {"sesta-fera", 5}, {"sábadu", 6}, {"dumingu", 0}, {"ter", 2}, {"kua", 3}, {"kin", 4}, {"ses", 5}, {"sab", 6}, {"dum", 0}},
		[]amountOf{{"a ten 1 sigundu", 0, -1}, {"di li 1 sigundu", 0, 1}, {"a ten 2 sigundu", 0, -2}, {"di li 2 sigundu", 0, 2}, {"a ten # sigundu", 0, -1}, {"di li # sigundu", 0, 1}, {"a ten ## sigundu", 0, -1}, {"di li ## sigundu", 0, 1}, {"a ten 1 minutu", 1, -1}, {"di li 1 minutu", 1, 1}, {"a ten 2 minutu", 1, -2}, {"di li 2 minutu", 1, 2}, {"a ten # minutu", 1, -1}, {"di li # minutu", 1, 1}, {"a ten ## minutu", 1, -1}, {"di li ## minutu", 1, 1}, {"a ten 1 ora", 2, -1}, {"di li 1 ora", 2, 1}, {"a ten 2 ora", 2, -2}, {"di li 2 ora", 2, 2}, {"a ten # ora", 2, -1}, {"di li # ora", 2, 1}, {"a ten ## ora", 2, -1}, {"di li ## ora", 2, 1}, {"a ten 1 dia", 3, -1}, {"di li 1 dia", 3, 1}, {"a ten 2 dia", 3, -2}, {"di li 2 dia", 3, 2}, {"a ten # dia", 3, -1}, {"di li # dia", 3, 1}, {"a ten ## dia", 3, -1}, {"di li ## dia", 3, 1}, {"a ten 1 simana", 4, -1}, {"di li 1 simana", 4, 1}, {"a ten 2 simana", 4, -2}, {"di li 2 simana", 4, 2}, {"a ten # simana", 4, -1}, {"di li # simana", 4, 1}, {"a ten ## simana", 4, -1}, {"di li ## simana", 4, 1}, {"a ten 1 mes", 5, -1}, {"di li 1 mes", 5, 1}, {"a ten 2 mes", 5, -2}, {"di li 2 mes", 5, 2}, {"a ten # mes", 5, -1}, {"di li # mes", 5, 1}, {"a ten ## mes", 5, -1}, {"di li ## mes", 5, 1}, {"a ten 1 anu", 6, -1}, {"di li 1 anu", 6, 1}, {"a ten 2 anu", 6, -2}, {"di li 2 anu", 6, 2}, {"a ten # anu", 6, -1}, {"di li # anu", 6, 1}, {"a ten ## anu", 6, -1}, {"di li ## anu", 6, 1}}},
	{"khq",
		[]nameOf{{"Žanwiye", 1}, {"Žan", 1}, {"Feewiriye", 2}, {"Fee", 2}, {"Marsi", 3}, {"Mar", 3}, {"Awiril", 4}, {"Awi", 4}, {"Me", 5}, {"Žuweŋ", 6}, {"Žuw", 6}, {"Žuyye", 7}, {"Žuy", 7}, {"Ut", 8}, {"Sektanbur", 9}, {"Sek", 9}, {"Oktoobur", 10}, {"Okt", 10}, {"Noowanbur", 11}, {"Noo", 11}, {"Deesanbur", 12}, {"Dee", 12}},
		[]nameOf{{"# Žanwiye ##", 1}, {"# Feewiriye ##", 2}, {"# Marsi ##", 3}, {"# Awiril ##", 4}, {"# Me ##", 5}, {"# Žuweŋ ##", 6}, {"# Žuyye ##", 7}, {"# Ut ##", 8}, {"# Sektanbur ##", 9}, {"# Oktoobur ##", 10}, {"# Noowanbur ##", 11}, {"# Deesanbur ##", 12}},
		[]nameOf{{"Atini", 1}, {"Atalata", 2}, {"Alarba", 3}, {"Alhamiisa", 4}, {"Aljuma", 5}, {"Assabdu", 6}, {"Alhadi", 0}, {"Ati", 1}, {"Ata", 2}, {"Ala", 3}, {"Alm", 4}, {"Alj", 5}, {"Ass", 6}, {"Alh", 0}},
		[]amountOf{}},
	{"ki",
		[]nameOf{{"Njenuarĩ", 1}, {"JEN", 1}, {"Mwere wa kerĩ", 2}, {"WKR", 2}, {"Mwere wa gatatũ", 3}, {"WGT", 3}, {"Mwere wa kana", 4}, {"WKN", 4}, {"Mwere wa gatano", 5}, {"WTN", 5}, {"Mwere wa gatandatũ", 6}, {"WTD", 6}, {"Mwere wa mũgwanja", 7}, {"WMJ", 7}, {"Mwere wa kanana", 8}, {"WNN", 8}, {"Mwere wa kenda", 9}, {"WKD", 9}, {"Mwere wa ikũmi", 10}, {"WIK", 10}, {"Mwere wa ikũmi na ũmwe", 11}, {"WMW", 11}, {"Ndithemba", 12}, {"DIT", 12}},
		[]nameOf{{"# Njenuarĩ ##", 1}, {"# Mwere wa kerĩ ##", 2}, {"# Mwere wa gatatũ ##", 3}, {"# Mwere wa kana ##", 4}, {"# Mwere wa gatano ##", 5}, {"# Mwere wa gatandatũ ##", 6}, {"# Mwere wa mũgwanja ##", 7}, {"# Mwere wa kanana ##", 8}, {"# Mwere wa kenda ##", 9}, {"# Mwere wa ikũmi ##", 10}, {"# Mwere wa ikũmi na ũmwe ##", 11}, {"# Ndithemba ##", 12}},
		[]nameOf{{"Njumatatũ", 1}, {"Njumaine", 2}, {"Njumatana", 3}, {"Aramithi", 4}, {"Njumaa", 5}, {"Njumamothi", 6}, {"Kiumia", 0}, {"NTT", 1}, {"NMN", 2}, {"NMT", 3}, {"ART", 4}, {"NMA", 5}, {"NMM", 6}, {"KMA", 0}},
		[]amountOf{}},
	{"kk",
		[]nameOf{{"қаңтар", 1}, {"Қаңтар", 1}, {"қаң.", 1}, {"ақпан", 2}, {"Ақпан", 2}, {"ақп.", 2}, {"наурыз", 3}, {"Наурыз", 3}, {"нау.", 3}, {"сәуір", 4}, {"Сәуір", 4}, {"сәу.", 4}, {"мамыр", 5}, {"Мамыр", 5}, {"мам.", 5}, {"маусым", 6}, {"Маусым", 6}, {"мау.", 6}, {"шілде", 7}, {"Шілде", 7}, {"шіл.", 7}, {"тамыз", 8}, {"Тамыз", 8}, {"там.", 8}, {"қыркүйек", 9}, {"Қыркүйек", 9}, {"қыр.", 9}, {"қазан", 10}, {"Қазан", 10}, {"қаз.", 10}, {"қараша", 11}, {"Қараша", 11}, {"қар.", 11}, {"желтоқсан", 12}, {"Желтоқсан", 12}, {"жел.", 12}},
		[]nameOf{{"## ж. # қаңтар", 1}, {"## ж. # ақпан", 2}, {"## ж. # наурыз", 3}, {"## ж. # сәуір", 4}, {"## ж. # мамыр", 5}, {"## ж. # маусым", 6}, {"## ж. # шілде", 7}, {"## ж. # тамыз", 8}, {"## ж. # қыркүйек", 9}, {"## ж. # қазан", 10}, {"## ж. # қараша", 11}, {"## ж. # желтоқсан", 12}},
		[]nameOf{{"дүйсенбі", 1}, {"сейсенбі", 2}, {"сәрсенбі", 3}, {"бейсенбі", 4}, {"жұма", 5}, {"сенбі", 6}, {"жексенбі", 0}, {"дс", 1}, {"сс", 2}, {"ср", 3}, {"бс", 4}, {"жм", 5}, {"сб", 6}, {"жс", 0}},
		[]amountOf{{"1 секунд бұрын", 0, -1}, {"1 секундтан кейін", 0, 1}, {"2 секунд бұрын", 0, -2}, {"2 секундтан кейін", 0, 2}, {"# секунд бұрын", 0, -1}, {"# секундтан кейін", 0, 1}, {"## секунд бұрын", 0, -1}, {"## секундтан кейін", 0, 1}, {"1 минут бұрын", 1, -1}, {"1 минуттан кейін", 1, 1}, {"2 минут бұрын", 1, -2}, {"2 минуттан кейін", 1, 2}, {"# минут бұрын", 1, -1}, {"# минуттан кейін", 1, 1}, {"## минут бұрын", 1, -1}, {"## минуттан кейін", 1, 1}, {"1 сағат бұрын", 2, -1}, {"1 сағаттан кейін", 2, 1}, {"2 сағат бұрын", 2, -2}, {"2 сағаттан кейін", 2, 2}, {"# сағат бұрын", 2, -1}, {"# сағаттан кейін", 2, 1}, {"## сағат бұрын", 2, -1}, {"## сағаттан кейін", 2, 1}, {"1 күн бұрын", 3, -1}, {"1 күннен кейін", 3, 1}, {"2 күн бұрын", 3, -2}, {"2 күннен кейін", 3, 2}, {"# күн бұрын", 3, -1}, {"# күннен кейін", 3, 1}, {"## күн бұрын", 3, -1}, {"## күннен кейін", 3, 1}, {"1 апта бұрын", 4, -1}, {"1 аптадан кейін", 4, 1}, {"2 апта бұрын", 4, -2}, {"2 аптадан кейін", 4, 2}, {"# апта бұрын", 4, -1}, {"# аптадан кейін", 4, 1}, {"## апта бұрын", 4, -1}, {"## аптадан кейін", 4, 1}, {"1 ай бұрын", 5, -1}, {"1 айдан кейін", 5, 1}, {"2 ай бұрын", 5, -2}, {"2 айдан кейін", 5, 2}, {"# ай бұрын", 5, -1}, {"# айдан кейін", 5, 1}, {"## ай бұрын", 5, -1}, {"## айдан кейін", 5, 1}, {"1 жыл бұрын", 6, -1}, {"1 жылдан кейін", 6, 1}, {"2 жыл бұрын", 6, -2}, {"2 жылдан кейін", 6, 2}, {"# жыл бұрын", 6, -1}, {"# жылдан кейін", 6, 1}, {"## жыл бұрын", 6, -1}, {"## жылдан кейін", 6, 1}}},
	{"kl",
		[]nameOf{{"jan", 1}, {"apr", 4}, {"maj", 5}, {"jun", 6}, {"jul", 7}, {"aug", 8}, {"okt", 10}, {"nov", 11}, {"dec", 12}},
		[]nameOf{},
		[]nameOf{{"ataasinngorneq", 1}, {"marlunngorneq", 2}, {"pingasunngorneq", 3}, {"sisamanngorneq", 4}, {"tallimanngorneq", 5}, {"arfininngorneq", 6}, {"ata", 1}, {"pin", 3}, {"sis", 4}, {"tal", 5}, {"arf", 6}},
		[]amountOf{{"for 1 sekundi siden", 0, -1}, {"om 1 sekundi", 0, 1}, {"for 2 sekundi siden", 0, -2}, {"om 2 sekundi", 0, 2}, {"for # sekundi siden", 0, -1}, {"om # sekundi", 0, 1}, {"for ## sekundi siden", 0, -1}, {"om ## sekundi", 0, 1}, {"for 1 minutsi siden", 1, -1}, {"om 1 minutsi", 1, 1}, {"for 2 minutsi siden", 1, -2}, {"om 2 minutsi", 1, 2}, {"for # minutsi siden", 1, -1}, {"om # minutsi", 1, 1}, {"for ## minutsi siden", 1, -1}, {"om ## minutsi", 1, 1}, {"for 1 nalunaaquttap-akunnera siden", 2, -1}, {"om 1 nalunaaquttap-akunnera", 2, 1}, {"for 2 nalunaaquttap-akunnera siden", 2, -2}, {"om 2 nalunaaquttap-akunnera", 2, 2}, {"for # nalunaaquttap-akunnera siden", 2, -1}, {"om # nalunaaquttap-akunnera", 2, 1}, {"for ## nalunaaquttap-akunnera siden", 2, -1}, {"om ## nalunaaquttap-akunnera", 2, 1}, {"for 1 ulloq unnuarlu siden", 3, -1}, {"om 1 ulloq unnuarlu", 3, 1}, {"for 2 ulloq unnuarlu siden", 3, -2}, {"om 2 ulloq unnuarlu", 3, 2}, {"for # ulloq unnuarlu siden", 3, -1}, {"om # ulloq unnuarlu", 3, 1}, {"for ## ulloq unnuarlu siden", 3, -1}, {"om ## ulloq unnuarlu", 3, 1}, {"for 1 sapaatip-akunnera siden", 4, -1}, {"om 1 sapaatip-akunnera", 4, 1}, {"for 2 sapaatip-akunnera siden", 4, -2}, {"om 2 sapaatip-akunnera", 4, 2}, {"for # sapaatip-akunnera siden", 4, -1}, {"om # sapaatip-akunnera", 4, 1}, {"for ## sapaatip-akunnera siden", 4, -1}, {"om ## sapaatip-akunnera", 4, 1}, {"for 1 qaammat siden", 5, -1}, {"om 1 qaammat", 5, 1}, {"for 2 qaammat siden", 5, -2}, {"om 2 qaammat", 5, 2}, {"for # qaammat siden", 5, -1}, {"om # qaammat", 5, 1}, {"for ## qaammat siden", 5, -1}, {"om ## qaammat", 5, 1}, {"for 1 ukioq siden", 6, -1}, {"om 1 ukioq", 6, 1}, {"for 2 ukioq siden", 6, -2}, {"om 2 ukioq", 6, 2}, {"for # ukioq siden", 6, -1}, {"om # ukioq", 6, 1}, {"for ## ukioq siden", 6, -1}, {"om ## ukioq", 6, 1}}},
	{"kln",
		[]nameOf{{"Mulgul", 1}, {"Mul", 1}, {"Ng’atyaato", 2}, {"Ngat", 2}, {"Kiptaamo", 3}, {"Taa", 3}, {"Iwootkuut", 4}, {"Iwo", 4}, {"Mamuut", 5}, {"Mam", 5}, {"Paagi", 6}, {"Paa", 6}, {"Ng’eiyeet", 7}, {"Nge", 7}, {"Rooptui", 8}, {"Roo", 8}, {"Bureet", 9}, {"Bur", 9}, {"Epeeso", 10}, {"Epe", 10}, {"Kipsuunde ne taai", 11}, {"Kpt", 11}, {"Kipsuunde nebo aeng’", 12}, {"Kpa", 12}},
		[]nameOf{{"# Mulgul ##", 1}, {"# Ng’atyaato ##", 2}, {"# Kiptaamo ##", 3}, {"# Iwootkuut ##", 4}, {"# Mamuut ##", 5}, {"# Paagi ##", 6}, {"# Ng’eiyeet ##", 7}, {"# Rooptui ##", 8}, {"# Bureet ##", 9}, {"# Epeeso ##", 10}, {"# Kipsuunde ne taai ##", 11}, {"# Kipsuunde nebo aeng’ ##", 12}},
		[]nameOf{{"Kotaai", 1}, {"Koaeng’", 2}, {"Kosomok", 3}, {"Koang’wan", 4}, {"Komuut", 5}, {"Kolo", 6}, {"Kotisap", 0}, {"Kot", 1}, {"Koo", 2}, {"Kos", 3}, {"Koa", 4}, {"Kom", 5}, {"Kol", 6}, {"Kts", 0}},
		[]amountOf{}},
	{"km",
		[]nameOf{{"មករា", 1}, {"កុម្ភៈ", 2}, {"មីនា", 3}, {"មេសា", 4}, {"ឧសភា", 5}, {"មិថុនា", 6}, {"កក្កដា", 7}, {"សីហា", 8}, {"កញ្ញា", 9}, {"តុលា", 10}, {"វិច្ឆិកា", 11}, {"ធ្នូ", 12}},
		[]nameOf{{"# មករា ##", 1}, {"# កុម្ភៈ ##", 2}, {"# មីនា ##", 3}, {"# មេសា ##", 4}, {"# ឧសភា ##", 5}, {"# មិថុនា ##", 6}, {"# កក្កដា ##", 7}, {"# សីហា ##", 8}, {"# កញ្ញា ##", 9}, {"# តុលា ##", 10}, {"# វិច្ឆិកា ##", 11}, {"# ធ្នូ ##", 12}},
		[]nameOf{{"ចន្ទ", 1}, {"អង្គារ", 2}, {"ពុធ", 3}, {"ព្រហស្បតិ៍", 4}, {"សុក្រ", 5}, {"សៅរ៍", 6}, {"អាទិត្យ", 0}},
		[]amountOf{{"1 វិនាទី\u200bមុន", 0, -1}, {"1 វិនាទីទៀត", 0, 1}, {"2 វិនាទី\u200bមុន", 0, -2}, {"2 វិនាទីទៀត", 0, 2}, {"# វិនាទី\u200bមុន", 0, -1}, {"# វិនាទីទៀត", 0, 1}, {"## វិនាទី\u200bមុន", 0, -1}, {"## វិនាទីទៀត", 0, 1}, {"1 នាទី\u200bមុន", 1, -1}, {"1 នាទីទៀត", 1, 1}, {"2 នាទី\u200bមុន", 1, -2}, {"2 នាទីទៀត", 1, 2}, {"# នាទី\u200bមុន", 1, -1}, {"# នាទីទៀត", 1, 1}, {"## នាទី\u200bមុន", 1, -1}, {"## នាទីទៀត", 1, 1}, {"1 ម៉ោង\u200bមុន", 2, -1}, {"ក្នុង\u200bរយៈ\u200bពេល 1 ម៉ោង", 2, 1}, {"2 ម៉ោង\u200bមុន", 2, -2}, {"ក្នុង\u200bរយៈ\u200bពេល 2 ម៉ោង", 2, 2}, {"# ម៉ោង\u200bមុន", 2, -1}, {"ក្នុង\u200bរយៈ\u200bពេល # ម៉ោង", 2, 1}, {"## ម៉ោង\u200bមុន", 2, -1}, {"ក្នុង\u200bរយៈ\u200bពេល ## ម៉ោង", 2, 1}, {"1 ថ្ងៃ\u200bមុន", 3, -1}, {"1 ថ្ងៃទៀត", 3, 1}, {"2 ថ្ងៃ\u200bមុន", 3, -2}, {"2 ថ្ងៃទៀត", 3, 2}, {"# ថ្ងៃ\u200bមុន", 3, -1}, {"# ថ្ងៃទៀត", 3, 1}, {"## ថ្ងៃ\u200bមុន", 3, -1}, {"## ថ្ងៃទៀត", 3, 1}, {"1 សប្ដាហ៍\u200bមុន", 4, -1}, {"1 សប្ដាហ៍ទៀត", 4, 1}, {"2 សប្ដាហ៍\u200bមុន", 4, -2}, {"2 សប្ដាហ៍ទៀត", 4, 2}, {"# សប្ដាហ៍\u200bមុន", 4, -1}, {"# សប្ដាហ៍ទៀត", 4, 1}, {"## សប្ដាហ៍\u200bមុន", 4, -1}, {"## សប្ដាហ៍ទៀត", 4, 1}, {"1 ខែមុន", 5, -1}, {"1 ខែទៀត", 5, 1}, {"2 ខែមុន", 5, -2}, {"2 ខែទៀត", 5, 2}, {"# ខែមុន", 5, -1}, {"# ខែទៀត", 5, 1}, {"## ខែមុន", 5, -1}, {"## ខែទៀត", 5, 1}, {"1 ឆ្នាំ\u200bមុន", 6, -1}, {"1 ឆ្នាំទៀត", 6, 1}, {"2 ឆ្នាំ\u200bមុន", 6, -2}, {"2 ឆ្នាំទៀត", 6, 2}, {"# ឆ្នាំ\u200bមុន", 6, -1}, {"# ឆ្នាំទៀត", 6, 1}, {"## ឆ្នាំ\u200bមុន", 6, -1}, {"## ឆ្នាំទៀត", 6, 1}}},
	{"kn",
		[]nameOf{{"ಜನವರಿ", 1}, {"ಜನ", 1}, {"ಫೆಬ್ರವರಿ", 2}, {"ಫೆಬ್ರ", 2}, {"ಮಾರ್ಚ್", 3}, {"ಏಪ್ರಿಲ್", 4}, {"ಏಪ್ರಿ", 4}, {"ಮೇ", 5}, {"ಜೂನ್", 6}, {"ಜುಲೈ", 7}, {"ಆಗಸ್ಟ್", 8}, {"ಆಗ", 8}, {"ಸೆಪ್ಟೆಂಬರ್", 9}, {"ಸೆಪ್ಟೆಂ", 9}, {"ಅಕ್ಟೋಬರ್", 10}, {"ಅಕ್ಟೋ", 10}, {"ನವೆಂಬರ್", 11}, {"ನವೆಂ", 11}, {"ಡಿಸೆಂಬರ್", 12}, {"ಡಿಸೆಂ", 12}},
		[]nameOf{{"ಜನವರಿ #, ##", 1}, {"ಫೆಬ್ರವರಿ #, ##", 2}, {"ಮಾರ್ಚ್ #, ##", 3}, {"ಏಪ್ರಿಲ್ #, ##", 4}, {"ಮೇ #, ##", 5}, {"ಜೂನ್ #, ##", 6}, {"ಜುಲೈ #, ##", 7}, {"ಆಗಸ್ಟ್ #, ##", 8}, {"ಸೆಪ್ಟೆಂಬರ್ #, ##", 9}, {"ಅಕ್ಟೋಬರ್ #, ##", 10}, {"ನವೆಂಬರ್ #, ##", 11}, {"ಡಿಸೆಂಬರ್ #, ##", 12}},
		[]nameOf{{"ಸೋಮವಾರ", 1}, {"ಮಂಗಳವಾರ", 2}, {"ಬುಧವಾರ", 3}, {"ಗುರುವಾರ", 4}, {"ಶುಕ್ರವಾರ", 5}, {"ಶನಿವಾರ", 6}, {"ಭಾನುವಾರ", 0}, {"ಸೋಮ", 1}, {"ಮಂಗಳ", 2}, {"ಬುಧ", 3}, {"ಗುರು", 4}, {"ಶುಕ್ರ", 5}, {"ಶನಿ", 6}, {"ಭಾನು", 0}},
		[]amountOf{{"1 ಸೆಕೆಂಡ್ ಹಿಂದೆ", 0, -1}, {"1 ಸೆಕೆಂಡ್\u200cನಲ್ಲಿ", 0, 1}, {"2 ಸೆಕೆಂಡುಗಳ ಹಿಂದೆ", 0, -2}, {"2 ಸೆಕೆಂಡ್\u200cಗಳಲ್ಲಿ", 0, 2}, {"# ಸೆಕೆಂಡುಗಳ ಹಿಂದೆ", 0, -1}, {"# ಸೆಕೆಂಡ್\u200cಗಳಲ್ಲಿ", 0, 1}, {"## ಸೆಕೆಂಡುಗಳ ಹಿಂದೆ", 0, -1}, {"## ಸೆಕೆಂಡ್\u200cಗಳಲ್ಲಿ", 0, 1}, {"1 ನಿಮಿಷದ ಹಿಂದೆ", 1, -1}, {"1 ನಿಮಿಷದಲ್ಲಿ", 1, 1}, {"2 ನಿಮಿಷಗಳ ಹಿಂದೆ", 1, -2}, {"2 ನಿಮಿಷಗಳಲ್ಲಿ", 1, 2}, {"# ನಿಮಿಷಗಳ ಹಿಂದೆ", 1, -1}, {"# ನಿಮಿಷಗಳಲ್ಲಿ", 1, 1}, {"## ನಿಮಿಷಗಳ ಹಿಂದೆ", 1, -1}, {"## ನಿಮಿಷಗಳಲ್ಲಿ", 1, 1}, {"1 ಗಂಟೆ ಹಿಂದೆ", 2, -1}, {"1 ಗಂಟೆಯಲ್ಲಿ", 2, 1}, {"2 ಗಂಟೆಗಳ ಹಿಂದೆ", 2, -2}, {"2 ಗಂಟೆಗಳಲ್ಲಿ", 2, 2}, {"# ಗಂಟೆಗಳ ಹಿಂದೆ", 2, -1}, {"# ಗಂಟೆಗಳಲ್ಲಿ", 2, 1}, {"## ಗಂಟೆಗಳ ಹಿಂದೆ", 2, -1}, {"## ಗಂಟೆಗಳಲ್ಲಿ", 2, 1}, {"1 ದಿನದ ಹಿಂದೆ", 3, -1}, {"1 ದಿನದಲ್ಲಿ", 3, 1}, {"2 ದಿನಗಳ ಹಿಂದೆ", 3, -2}, {"2 ದಿನಗಳಲ್ಲಿ", 3, 2}, {"# ದಿನಗಳ ಹಿಂದೆ", 3, -1}, {"# ದಿನಗಳಲ್ಲಿ", 3, 1}, {"## ದಿನಗಳ ಹಿಂದೆ", 3, -1}, {"## ದಿನಗಳಲ್ಲಿ", 3, 1}, {"1 ವಾರದ ಹಿಂದೆ", 4, -1}, {"1 ವಾರದಲ್ಲಿ", 4, 1}, {"2 ವಾರಗಳ ಹಿಂದೆ", 4, -2}, {"2 ವಾರಗಳಲ್ಲಿ", 4, 2}, {"# ವಾರಗಳ ಹಿಂದೆ", 4, -1}, {"# ವಾರಗಳಲ್ಲಿ", 4, 1}, {"## ವಾರಗಳ ಹಿಂದೆ", 4, -1}, {"## ವಾರಗಳಲ್ಲಿ", 4, 1}, {"1 ತಿಂಗಳ ಹಿಂದೆ", 5, -1}, {"1 ತಿಂಗಳಲ್ಲಿ", 5, 1}, {"2 ತಿಂಗಳುಗಳ ಹಿಂದೆ", 5, -2}, {"2 ತಿಂಗಳುಗಳಲ್ಲಿ", 5, 2}, {"# ತಿಂಗಳುಗಳ ಹಿಂದೆ", 5, -1}, {"# ತಿಂಗಳುಗಳಲ್ಲಿ", 5, 1}, {"## ತಿಂಗಳುಗಳ ಹಿಂದೆ", 5, -1}, {"## ತಿಂಗಳುಗಳಲ್ಲಿ", 5, 1}, {"1 ವರ್ಷದ ಹಿಂದೆ", 6, -1}, {"1 ವರ್ಷದಲ್ಲಿ", 6, 1}, {"2 ವರ್ಷಗಳ ಹಿಂದೆ", 6, -2}, {"2 ವರ್ಷಗಳಲ್ಲಿ", 6, 2}, {"# ವರ್ಷಗಳ ಹಿಂದೆ", 6, -1}, {"# ವರ್ಷಗಳಲ್ಲಿ", 6, 1}, {"## ವರ್ಷಗಳ ಹಿಂದೆ", 6, -1}, {"## ವರ್ಷಗಳಲ್ಲಿ", 6, 1}}},
	{"ko",
		[]nameOf{{"1월", 1}, {"2월", 2}, {"3월", 3}, {"4월", 4}, {"5월", 5}, {"6월", 6}, {"7월", 7}, {"8월", 8}, {"9월", 9}, {"10월", 10}, {"11월", 11}, {"12월", 12}},
		[]nameOf{{"##년 1월 #일", 1}, {"##년 2월 #일", 2}, {"##년 3월 #일", 3}, {"##년 4월 #일", 4}, {"##년 5월 #일", 5}, {"##년 6월 #일", 6}, {"##년 7월 #일", 7}, {"##년 8월 #일", 8}, {"##년 9월 #일", 9}, {"##년 10월 #일", 10}, {"##년 11월 #일", 11}, {"##년 12월 #일", 12}},
		[]nameOf{{"월요일", 1}, {"화요일", 2}, {"수요일", 3}, {"목요일", 4}, {"금요일", 5}, {"토요일", 6}, {"일요일", 0}, {"월", 1}, {"화", 2}, {"수", 3}, {"목", 4}, {"금", 5}, {"토", 6}},
		[]amountOf{{"1초 전", 0, -1}, {"1초 후", 0, 1}, {"2초 전", 0, -2}, {"2초 후", 0, 2}, {"#초 전", 0, -1}, {"#초 후", 0, 1}, {"##초 전", 0, -1}, {"##초 후", 0, 1}, {"1분 전", 1, -1}, {"1분 후", 1, 1}, {"2분 전", 1, -2}, {"2분 후", 1, 2}, {"#분 전", 1, -1}, {"#분 후", 1, 1}, {"##분 전", 1, -1}, {"##분 후", 1, 1}, {"1시간 전", 2, -1}, {"1시간 후", 2, 1}, {"2시간 전", 2, -2}, {"2시간 후", 2, 2}, {"#시간 전", 2, -1}, {"#시간 후", 2, 1}, {"##시간 전", 2, -1}, {"##시간 후", 2, 1}, {"1일 전", 3, -1}, {"1일 후", 3, 1}, {"2일 전", 3, -2}, {"2일 후", 3, 2}, {"#일 전", 3, -1}, {"#일 후", 3, 1}, {"##일 전", 3, -1}, {"##일 후", 3, 1}, {"1주 전", 4, -1}, {"1주 후", 4, 1}, {"2주 전", 4, -2}, {"2주 후", 4, 2}, {"#주 전", 4, -1}, {"#주 후", 4, 1}, {"##주 전", 4, -1}, {"##주 후", 4, 1}, {"1개월 전", 5, -1}, {"1개월 후", 5, 1}, {"2개월 전", 5, -2}, {"2개월 후", 5, 2}, {"#개월 전", 5, -1}, {"#개월 후", 5, 1}, {"##개월 전", 5, -1}, {"##개월 후", 5, 1}, {"1년 전", 6, -1}, {"1년 후", 6, 1}, {"2년 전", 6, -2}, {"2년 후", 6, 2}, {"#년 전", 6, -1}, {"#년 후", 6, 1}, {"##년 전", 6, -1}, {"##년 후", 6, 1}}},
	{"kok",
		[]nameOf{{"जानेवारी", 1}, {"फेब्रुवारी", 2}, {"मार्च", 3}, {"मे", 5}, {"जून", 6}, {"जुल", 7}, {"सप्टेंबर", 9}, {"नोव्हेंबर", 11}, {"डिसेंबर", 12}},
		[]nameOf{{"# जानेवारी ##", 1}, {"# फेब्रुवारी ##", 2}, {"# मार्च ##", 3}, {"# मे ##", 5}, {"# जून ##", 6}, {"# सप्टेंबर ##", 9}, {"# नोव्हेंबर ##", 11}, {"# डिसेंबर ##", 12}},
		[]nameOf{{"मंगळार", 2}, {"बुधवार", 3}},
		[]amountOf{}},
	{"ks",
		[]nameOf{{"جنؤری", 1}, {"فرؤری", 2}, {"مارٕچ", 3}, {"اپریل", 4}, {"جوٗن", 6}, {"جوٗلایی", 7}, {"اگست", 8}, {"ستمبر", 9}, {"اکتوٗبر", 10}, {"نومبر", 11}, {"دسمبر", 12}},
		[]nameOf{{"جنؤری #, ##", 1}, {"فرؤری #, ##", 2}, {"مارٕچ #, ##", 3}, {"اپریل #, ##", 4}, {"جوٗن #, ##", 6}, {"اگست #, ##", 8}, {"ستمبر #, ##", 9}, {"اکتوٗبر #, ##", 10}, {"نومبر #, ##", 11}},
		[]nameOf{{"ژٔندرٕروار", 1}, {"بودوار", 3}, {"بٹوار", 6}, {"ژٔندٕروار", 1}, {"آتھوار", 0}},
		[]amountOf{}},
	{"ksb",
		[]nameOf{{"Januali", 1}, {"Jan", 1}, {"Febluali", 2}, {"Feb", 2}, {"Machi", 3}, {"Mac", 3}, {"Aplili", 4}, {"Apr", 4}, {"Mei", 5}, {"Juni", 6}, {"Jun", 6}, {"Julai", 7}, {"Jul", 7}, {"Agosti", 8}, {"Ago", 8}, {"Septemba", 9}, {"Sep", 9}, {"Oktoba", 10}, {"Okt", 10}, {"Novemba", 11}, {"Nov", 11}, {"Desemba", 12}, {"Des", 12}},
		[]nameOf{{"# Januali ##", 1}, {"# Febluali ##", 2}, {"# Machi ##", 3}, {"# Aplili ##", 4}, {"# Mei ##", 5}, {"# Juni ##", 6}, {"# Julai ##", 7}, {"# Agosti ##", 8}, {"# Septemba ##", 9}, {"# Oktoba ##", 10}, {"# Novemba ##", 11}, {"# Desemba ##", 12}},
		[]nameOf{{"Jumaatatu", 1}, {"Jumaane", 2}, {"Jumaatano", 3}, {"Alhamisi", 4}, {"Ijumaa", 5}, {"Jumaamosi", 6}, {"Jumaapii", 0}, {"Jtt", 1}, {"Jmn", 2}, {"Jtn", 3}, {"Alh", 4}, {"Iju", 5}, {"Jmo", 6}, {"Jpi", 0}},
		[]amountOf{}},
	{"ksf",
		[]nameOf{{"ŋwíí a ntɔ́ntɔ", 1}, {"ŋ1", 1}, {"ŋwíí akǝ bɛ́ɛ", 2}, {"ŋ2", 2}, {"ŋwíí akǝ ráá", 3}, {"ŋ3", 3}, {"ŋwíí akǝ nin", 4}, {"ŋ4", 4}, {"ŋwíí akǝ táan", 5}, {"ŋ5", 5}, {"ŋwíí akǝ táafɔk", 6}, {"ŋ6", 6}, {"ŋwíí akǝ táabɛɛ", 7}, {"ŋ7", 7}, {"ŋwíí akǝ táaraa", 8}, {"ŋ8", 8}, {"ŋwíí akǝ táanin", 9}, {"ŋ9", 9}, {"ŋwíí akǝ ntɛk", 10}, {"ŋ10", 10}, {"ŋwíí akǝ ntɛk di bɔ́k", 11}, {"ŋ11", 11}, {"ŋwíí akǝ ntɛk di bɛ́ɛ", 12}, {"ŋ12", 12}},
		[]nameOf{{"# ŋwíí a ntɔ́ntɔ ##", 1}, {"# ŋwíí akǝ bɛ́ɛ ##", 2}, {"# ŋwíí akǝ ráá ##", 3}, {"# ŋwíí akǝ nin ##", 4}, {"# ŋwíí akǝ táan ##", 5}, {"# ŋwíí akǝ táafɔk ##", 6}, {"# ŋwíí akǝ táabɛɛ ##", 7}, {"# ŋwíí akǝ táaraa ##", 8}, {"# ŋwíí akǝ táanin ##", 9}, {"# ŋwíí akǝ ntɛk ##", 10}, {"# ŋwíí akǝ ntɛk di bɔ́k ##", 11}, {"# ŋwíí akǝ ntɛk di bɛ́ɛ ##", 12}},
		[]nameOf{{"lǝndí", 1}, {"maadí", 2}, {"mɛkrɛdí", 3}, {"jǝǝdí", 4}, {"júmbá", 5}, {"samdí", 6}, {"sɔ́ndǝ", 0}, {"lǝn", 1}, {"maa", 2}, {"mɛk", 3}, {"jǝǝ", 4}, {"júm", 5}, {"sam", 6}, {"sɔ́n", 0}},
		[]amountOf{}},
	{"ksh",
		[]nameOf{{"Jannewa", 1}, {"Jan", 1}, {"Fäbrowa", 2}, {"Fäb", 2}, {"Määz", 3}, {"Mäz", 3}, {"Aprell", 4}, {"Apr", 4}, {"Mai", 5}, {"Juuni", 6}, {"Jun", 6}, {"Juuli", 7}, {"Jul", 7}, {"Oujoß", 8}, {"Ouj", 8}, {"Septämber", 9}, {"Säp", 9}, {"Oktohber", 10}, {"Okt", 10}, {"Novämber", 11}, {"Nov", 11}, {"Dezämber", 12}, {"Dez", 12}},
		[]nameOf{{"#. Jannewa ##", 1}, {"#. Fäbrowa ##", 2}, {"#. Määz ##", 3}, {"#. Aprell ##", 4}, {"#. Mai ##", 5}, {"#. Juuni ##", 6}, {"#. Juuli ##", 7}, {"#. Oujoß ##", 8}, {"#. Septämber ##", 9}, {"#. Oktohber ##", 10}, {"#. Novämber ##", 11}, {"#. Dezämber ##", 12}},
		[]nameOf{{"Mohndaach", 1}, {"Dinnsdaach", 2}, {"Metwoch", 3}, {"Dunnersdaach", 4}, {"Friidaach", 5}, {"Samsdaach", 6}, {"Sunndaach", 0}, {"Mo.", 1}, {"Di.", 2}, {"Me.", 3}, {"Du.", 4}, {"Fr.", 5}, {"Sa.", 6}, {"Su.", 0}},
		[]amountOf{{"vör 1 Johr", 6, -1}, {"en 1 Johr", 6, 1}, {"vör 2 Johre", 6, -2}, {"en 2 Johre", 6, 2}, {"vör # Johre", 6, -1}, {"en # Johre", 6, 1}, {"vör ## Johre", 6, -1}, {"en ## Johre", 6, 1}}},
	{"kw",
		[]nameOf{{"mis Genver", 1}, {"Gen", 1}, {"mis Hwevrer", 2}, {"Hwe", 2}, {"mis Meurth", 3}, {"Meu", 3}, {"mis Ebrel", 4}, {"Ebr", 4}, {"mis Me", 5}, {"Me", 5}, {"mis Metheven", 6}, {"Met", 6}, {"mis Gortheren", 7}, {"Gor", 7}, {"mis Est", 8}, {"Est", 8}, {"mis Gwynngala", 9}, {"Gwn", 9}, {"mis Hedra", 10}, {"Hed", 10}, {"mis Du", 11}, {"Du", 11}, {"mis Kevardhu", 12}, {"Kev", 12}},
		[]nameOf{{"## mis Genver #", 1}, {"## mis Hwevrer #", 2}, {"## mis Meurth #", 3}, {"## mis Ebrel #", 4}, {"## mis Me #", 5}, {"## mis Metheven #", 6}, {"## mis Gortheren #", 7}, {"## mis Est #", 8}, {"## mis Gwynngala #", 9}, {"## mis Hedra #", 10}, {"## mis Du #", 11}, {"## mis Kevardhu #", 12}},
		[]nameOf{{"dy Lun", 1}, {"dy Meurth", 2}, {"dy Merher", 3}, {"dy Yow", 4}, {"dy Gwener", 5}, {"dy Sadorn", 6}, {"dy Sul", 0}, {"Lun", 1}, {"Mth", 2}, {"Mhr", 3}, {"Yow", 4}, {"Gwe", 5}, {"Sad", 6}, {"Sul", 0}},
		[]amountOf{}},
	{"ky",
		[]nameOf{{"январь", 1}, {"Январь", 1}, {"янв.", 1}, {"февраль", 2}, {"Февраль", 2}, {"фев.", 2}, {"март", 3}, {"Март", 3}, {"мар.", 3}, {"апрель", 4}, {"Апрель", 4}, {"апр.", 4}, {"май", 5}, {"Май", 5}, {"июнь", 6}, {"Июнь", 6}, {"июн.", 6}, {"июль", 7}, {"Июль", 7}, {"июл.", 7}, {"август", 8}, {"Август", 8}, {"авг.", 8}, {"сентябрь", 9}, {"Сентябрь", 9}, {"сен.", 9}, {"октябрь", 10}, {"Октябрь", 10}, {"окт.", 10}, {"ноябрь", 11}, {"Ноябрь", 11}, {"ноя.", 11}, {"декабрь", 12}, {"Декабрь", 12}, {"дек.", 12}},
		[]nameOf{{"##-ж., #-январь", 1}, {"##-ж., #-февраль", 2}, {"##-ж., #-март", 3}, {"##-ж., #-апрель", 4}, {"##-ж., #-май", 5}, {"##-ж., #-июнь", 6}, {"##-ж., #-июль", 7}, {"##-ж., #-август", 8}, {"##-ж., #-сентябрь", 9}, {"##-ж., #-октябрь", 10}, {"##-ж., #-ноябрь", 11}, {"##-ж., #-декабрь", 12}},
		[]nameOf{{"дүйшөмбү", 1}, {"шейшемби", 2}, {"шаршемби", 3}, {"бейшемби", 4}, {"жума", 5}, {"ишемби", 6}, {"жекшемби", 0}, {"дүй.", 1}, {"шейш.", 2}, {"шарш.", 3}, {"бейш.", 4}, {"ишм.", 6}, {"жек.", 0}},
		[]amountOf{{"1 секунд мурун", 0, -1}, {"1 секунддан кийин", 0, 1}, {"2 секунд мурун", 0, -2}, {"2 секунддан кийин", 0, 2}, {"# секунд мурун", 0, -1}, {"# секунддан кийин", 0, 1}, {"## секунд мурун", 0, -1}, {"## секунддан кийин", 0, 1}, {"1 мүнөт мурун", 1, -1}, {"1 мүнөттөн кийин", 1, 1}, {"2 мүнөт мурун", 1, -2}, {"2 мүнөттөн кийин", 1, 2}, {"# мүнөт мурун", 1, -1}, {"# мүнөттөн кийин", 1, 1}, {"## мүнөт мурун", 1, -1}, {"## мүнөттөн кийин", 1, 1}, {"1 саат мурун", 2, -1}, {"1 сааттан кийин", 2, 1}, {"2 саат мурун", 2, -2}, {"2 сааттан кийин", 2, 2}, {"# саат мурун", 2, -1}, {"# сааттан кийин", 2, 1}, {"## саат мурун", 2, -1}, {"## сааттан кийин", 2, 1}, {"1 күн мурун", 3, -1}, {"1 күндөн кийин", 3, 1}, {"2 күн мурун", 3, -2}, {"2 күндөн кийин", 3, 2}, {"# күн мурун", 3, -1}, {"# күндөн кийин", 3, 1}, {"## күн мурун", 3, -1}, {"## күндөн кийин", 3, 1}, {"1 апта мурун", 4, -1}, {"1 аптадан кийин", 4, 1}, {"2 апта мурун", 4, -2}, {"2 аптадан кийин", 4, 2}, {"# апта мурун", 4, -1}, {"# аптадан кийин", 4, 1}, {"## апта мурун", 4, -1}, {"## аптадан кийин", 4, 1}, {"1 ай мурун", 5, -1}, {"1 айдан кийин", 5, 1}, {"2 ай мурун", 5, -2}, {"2 айдан кийин", 5, 2}, {"# ай мурун", 5, -1}, {"# айдан кийин", 5, 1}, {"## ай мурун", 5, -1}, {"## айдан кийин", 5, 1}, {"1 жыл мурун", 6, -1}, {"1 жылдан кийин", 6, 1}, {"2 жыл мурун", 6, -2}, {"2 жылдан кийин", 6, 2}, {"# жыл мурун", 6, -1}, {"# жылдан кийин", 6, 1}, {"## жыл мурун", 6, -1}, {"## жылдан кийин", 6, 1}}},
	{"lag",
		[]nameOf{{"Kʉfúngatɨ", 1}, {"Fúngatɨ", 1}, {"Kʉnaanɨ", 2}, {"Naanɨ", 2}, {"Kʉkeenda", 3}, {"Keenda", 3}, {"Kwiikumi", 4}, {"Ikúmi", 4}, {"Kwiinyambála", 5}, {"Inyambala", 5}, {"Kwiidwaata", 6}, {"Idwaata", 6}, {"Kʉmʉʉnchɨ", 7}, {"Mʉʉnchɨ", 7}, {"Kʉvɨɨrɨ", 8}, {"Vɨɨrɨ", 8}, {"Kʉsaatʉ", 9}, {"Saatʉ", 9}, {"Kwiinyi", 10}, {"Inyi", 10}, {"Kʉsaano", 11}, {"Saano", 11}, {"Kʉsasatʉ", 12}, {"Sasatʉ", 12}},
		[]nameOf{{"# Kʉfúngatɨ ##", 1}, {"# Kʉnaanɨ ##", 2}, {"# Kʉkeenda ##", 3}, {"# Kwiikumi ##", 4}, {"# Kwiinyambála ##", 5}, {"# Kwiidwaata ##", 6}, {"# Kʉmʉʉnchɨ ##", 7}, {"# Kʉvɨɨrɨ ##", 8}, {"# Kʉsaatʉ ##", 9}, {"# Kwiinyi ##", 10}, {"# Kʉsaano ##", 11}, {"# Kʉsasatʉ ##", 12}},
		[]nameOf{{"Jumatátu", 1}, {"Jumaíne", 2}, {"Jumatáano", 3}, {"Alamíisi", 4}, {"Ijumáa", 5}, {"Jumamóosi", 6}, {"Jumapíiri", 0}, {"Táatu", 1}, {"Íne", 2}, {"Táano", 3}, {"Alh", 4}, {"Ijm", 5}, {"Móosi", 6}, {"Píili", 0}},
		[]amountOf{}},
	{"lb",
		[]nameOf{{"Januar", 1}, {"Jan.", 1}, {"Februar", 2}, {"Feb.", 2}, {"Mäerz", 3}, {"Mäe.", 3}, {"Abrëll", 4}, {"Abr.", 4}, {"Mee", 5}, {"Juni", 6}, {"Juli", 7}, {"August", 8}, {"Aug.", 8}, {"September", 9}, {"Sep.", 9}, {"Oktober", 10}, {"Okt.", 10}, {"November", 11}, {"Nov.", 11}, {"Dezember", 12}, {"Dez.", 12}},
		[]nameOf{{"#. Januar ##", 1}, {"#. Februar ##", 2}, {"#. Mäerz ##", 3}, {"#. Abrëll ##", 4}, {"#. Mee ##", 5}, {"#. Juni ##", 6}, {"#. Juli ##", 7}, {"#. August ##", 8}, {"#. September ##", 9}, {"#. Oktober ##", 10}, {"#. November ##", 11}, {"#. Dezember ##", 12}},
		[]nameOf{{"Méindeg", 1}, {"Dënschdeg", 2}, {"Mëttwoch", 3}, {"Donneschdeg", 4}, {"Freideg", 5}, {"Samschdeg", 6}, {"Sonndeg", 0}, {"Méi", 1}, {"Dën", 2}, {"Mët", 3}, {"Don", 4}, {"Fre", 5}, {"Sam", 6}, {"Son", 0}},
		[]amountOf{{"virun 1 Sekonn", 0, -1}, {"an 1 Sekonn", 0, 1}, {"virun 1 Minutt", 1, -1}, {"an 1 Minutt", 1, 1}, {"virun 1 Stonn", 2, -1}, {"an 1 Stonn", 2, 1}, {"virun 1 Dag", 3, -1}, {"an 1 Dag", 3, 1}, {"virun 1 Woch", 4, -1}, {"an 1 Woch", 4, 1}, {"virun 1 Mount", 5, -1}, {"an 1 Mount", 5, 1}, {"virun 1 Joer", 6, -1}, {"an 1 Joer", 6, 1}}},
	{"lg",
		[]nameOf{{"Janwaliyo", 1}, {"Jan", 1}, {"Febwaliyo", 2}, {"Feb", 2}, {"Marisi", 3}, {"Mar", 3}, {"Apuli", 4}, {"Apu", 4}, {"Maayi", 5}, {"Maa", 5}, {"Juuni", 6}, {"Juu", 6}, {"Julaayi", 7}, {"Jul", 7}, {"Agusito", 8}, {"Agu", 8}, {"Sebuttemba", 9}, {"Seb", 9}, {"Okitobba", 10}, {"Oki", 10}, {"Novemba", 11}, {"Nov", 11}, {"Desemba", 12}, {"Des", 12}},
		[]nameOf{{"# Janwaliyo ##", 1}, {"# Febwaliyo ##", 2}, {"# Marisi ##", 3}, {"# Apuli ##", 4}, {"# Maayi ##", 5}, {"# Juuni ##", 6}, {"# Julaayi ##", 7}, {"# Agusito ##", 8}, {"# Sebuttemba ##", 9}, {"# Okitobba ##", 10}, {"# Novemba ##", 11}, {"# Desemba ##", 12}},
		[]nameOf{{"Balaza", 1}, {"Lwakubiri", 2}, {"Lwakusatu", 3}, {"Lwakuna", 4}, {"Lwakutaano", 5}, {"Lwamukaaga", 6}, {"Sabbiiti", 0}, {"Bal", 1}, {"Lw2", 2}, {"Lw3", 3}, {"Lw4", 4}, {"Lw5", 5}, {"Lw6", 6}, {"Sab", 0}},
		[]amountOf{}},
	{"lkt",
		[]nameOf{{"Wiótheȟika Wí", 1}, {"Thiyóȟeyuŋka Wí", 2}, {"Ištáwičhayazaŋ Wí", 3}, {"Pȟežítȟo Wí", 4}, {"Čhaŋwápetȟo Wí", 5}, {"Wípazukȟa-wašté Wí", 6}, {"Čhaŋpȟásapa Wí", 7}, {"Wasútȟuŋ Wí", 8}, {"Čhaŋwápeǧi Wí", 9}, {"Čhaŋwápe-kasná Wí", 10}, {"Waníyetu Wí", 11}, {"Tȟahékapšuŋ Wí", 12}},
		[]nameOf{{"Wiótheȟika Wí #, ##", 1}, {"Thiyóȟeyuŋka Wí #, ##", 2}, {"Ištáwičhayazaŋ Wí #, ##", 3}, {"Pȟežítȟo Wí #, ##", 4}, {"Čhaŋwápetȟo Wí #, ##", 5}, {"Wípazukȟa-wašté Wí #, ##", 6}, {"Čhaŋpȟásapa Wí #, ##", 7}, {"Wasútȟuŋ Wí #, ##", 8}, {"Čhaŋwápeǧi Wí #, ##", 9}, {"Čhaŋwápe-kasná Wí #, ##", 10}, {"Waníyetu Wí #, ##", 11}, {"Tȟahékapšuŋ Wí #, ##", 12}},
		[]nameOf{{"Aŋpétuwaŋži", 1}, {"Aŋpétunuŋpa", 2}, {"Aŋpétuyamni", 3}, {"Aŋpétutopa", 4}, {"Aŋpétuzaptaŋ", 5}, {"Owáŋgyužažapi", 6}, {"Aŋpétuwakȟaŋ", 0}},
		[]amountOf{{"Hékta okpí 1 k’uŋ héhaŋ", 0, -1}, {"Letáŋhaŋ okpí 1 kiŋháŋ", 0, 1}, {"Hékta okpí 2 k’uŋ héhaŋ", 0, -2}, {"Letáŋhaŋ okpí 2 kiŋháŋ", 0, 2}, {"Hékta okpí # k’uŋ héhaŋ", 0, -1}, {"Letáŋhaŋ okpí # kiŋháŋ", 0, 1}, {"Hékta okpí ## k’uŋ héhaŋ", 0, -1}, {"Letáŋhaŋ okpí ## kiŋháŋ", 0, 1}, {"Hékta oȟ’áŋkȟo 1 k’uŋ héhaŋ", 1, -1}, {"Letáŋhaŋ oȟ’áŋkȟo 1 kiŋháŋ", 1, 1}, {"Hékta oȟ’áŋkȟo 2 k’uŋ héhaŋ", 1, -2}, {"Letáŋhaŋ oȟ’áŋkȟo 2 kiŋháŋ", 1, 2}, {"Hékta oȟ’áŋkȟo # k’uŋ héhaŋ", 1, -1}, {"Letáŋhaŋ oȟ’áŋkȟo # kiŋháŋ", 1, 1}, {"Hékta oȟ’áŋkȟo ## k’uŋ héhaŋ", 1, -1}, {"Letáŋhaŋ oȟ’áŋkȟo ## kiŋháŋ", 1, 1}, {"Hékta owápȟe 1 kʼuŋ héhaŋ", 2, -1}, {"Letáŋhaŋ owápȟe 1 kiŋháŋ", 2, 1}, {"Hékta owápȟe 2 kʼuŋ héhaŋ", 2, -2}, {"Letáŋhaŋ owápȟe 2 kiŋháŋ", 2, 2}, {"Hékta owápȟe # kʼuŋ héhaŋ", 2, -1}, {"Letáŋhaŋ owápȟe # kiŋháŋ", 2, 1}, {"Hékta owápȟe ## kʼuŋ héhaŋ", 2, -1}, {"Letáŋhaŋ owápȟe ## kiŋháŋ", 2, 1}, {"Hékta 1-čháŋ k’uŋ héhaŋ", 3, -1}, {"Letáŋhaŋ 1-čháŋ kiŋháŋ", 3, 1}, {"Hékta 2-čháŋ k’uŋ héhaŋ", 3, -2}, {"Letáŋhaŋ 2-čháŋ kiŋháŋ", 3, 2}, {"Hékta #-čháŋ k’uŋ héhaŋ", 3, -1}, {"Letáŋhaŋ #-čháŋ kiŋháŋ", 3, 1}, {"Hékta ##-čháŋ k’uŋ héhaŋ", 3, -1}, {"Letáŋhaŋ ##-čháŋ kiŋháŋ", 3, 1}, {"Hékta okó 1 kʼuŋ héhaŋ", 4, -1}, {"Letáŋhaŋ okó 1 kiŋháŋ", 4, 1}, {"Hékta okó 2 kʼuŋ héhaŋ", 4, -2}, {"Letáŋhaŋ okó 2 kiŋháŋ", 4, 2}, {"Hékta okó # kʼuŋ héhaŋ", 4, -1}, {"Letáŋhaŋ okó # kiŋháŋ", 4, 1}, {"Hékta okó ## kʼuŋ héhaŋ", 4, -1}, {"Letáŋhaŋ okó ## kiŋháŋ", 4, 1}, {"Hékta wíyawapi 1 kʼuŋ héhaŋ", 5, -1}, {"Letáŋhaŋ wíyawapi 1 kiŋháŋ", 5, 1}, {"Hékta wíyawapi 2 kʼuŋ héhaŋ", 5, -2}, {"Letáŋhaŋ wíyawapi 2 kiŋháŋ", 5, 2}, {"Hékta wíyawapi # kʼuŋ héhaŋ", 5, -1}, {"Letáŋhaŋ wíyawapi # kiŋháŋ", 5, 1}, {"Hékta wíyawapi ## kʼuŋ héhaŋ", 5, -1}, {"Letáŋhaŋ wíyawapi ## kiŋháŋ", 5, 1}, {"Hékta ómakȟa 1 kʼuŋ héhaŋ", 6, -1}, {"Letáŋhaŋ ómakȟa 1 kiŋháŋ", 6, 1}, {"Hékta ómakȟa 2 kʼuŋ héhaŋ", 6, -2}, {"Letáŋhaŋ ómakȟa 2 kiŋháŋ", 6, 2}, {"Hékta ómakȟa # kʼuŋ héhaŋ", 6, -1}, {"Letáŋhaŋ ómakȟa # kiŋháŋ", 6, 1}, {"Hékta ómakȟa ## kʼuŋ héhaŋ", 6, -1}, {"Letáŋhaŋ ómakȟa ## kiŋháŋ", 6, 1}}},
	{"ln",
		[]nameOf{{"sánzá ya yambo", 1}, {"yan", 1}, {"sánzá ya míbalé", 2}, {"fbl", 2}, {"sánzá ya mísáto", 3}, {"msi", 3}, {"sánzá ya mínei", 4}, {"apl", 4}, {"sánzá ya mítáno", 5}, {"mai", 5}, {"sánzá ya motóbá", 6}, {"yun", 6}, {"sánzá ya nsambo", 7}, {"yul", 7}, {"sánzá ya mwambe", 8}, {"agt", 8}, {"sánzá ya libwa", 9}, {"stb", 9}, {"sánzá ya zómi", 10}, {"ɔtb", 10}, {"sánzá ya zómi na mɔ̌kɔ́", 11}, {"nvb", 11}, {"sánzá ya zómi na míbalé", 12}, {"dsb", 12}},
		[]nameOf{{"# sánzá ya yambo ##", 1}, {"# sánzá ya míbalé ##", 2}, {"# sánzá ya mísáto ##", 3}, {"# sánzá ya mínei ##", 4}, {"# sánzá ya mítáno ##", 5}, {"# sánzá ya motóbá ##", 6}, {"# sánzá ya nsambo ##", 7}, {"# sánzá ya mwambe ##", 8}, {"# sánzá ya libwa ##", 9}, {"# sánzá ya zómi ##", 10}, {"# sánzá ya zómi na mɔ̌kɔ́ ##", 11}, {"# sánzá ya zómi na míbalé ##", 12}},
		[]nameOf{{"mokɔlɔ mwa yambo", 1}, {"mokɔlɔ mwa míbalé", 2}, {"mokɔlɔ mwa mísáto", 3}, {"mokɔlɔ ya mínéi", 4}, {"mokɔlɔ ya mítáno", 5}, {"mpɔ́sɔ", 6}, {"eyenga", 0}, {"ybo", 1}, {"mbl", 2}, {"mst", 3}, {"mtn", 5}, {"mps", 6}, {"eye", 0}},
		[]amountOf{}},
	{"lo",
		[]nameOf{{"ມັງກອນ", 1}, {"ມ.ກ.", 1}, {"ກຸມພາ", 2}, {"ກ.ພ.", 2}, {"ມີນາ", 3}, {"ມ.ນ.", 3}, {"ເມສາ", 4}, {"ມ.ສ.", 4}, {"ພຶດສະພາ", 5}, {"ພ.ພ.", 5}, {"ມິຖຸນາ", 6}, {"ມິ.ຖ.", 6}, {"ກໍລະກົດ", 7}, {"ກ.ລ.", 7}, {"ສິງຫາ", 8}, {"ສ.ຫ.", 8}, {"ກັນຍາ", 9}, {"ກ.ຍ.", 9}, {"ຕຸລາ", 10}, {"ຕ.ລ.", 10}, {"ພະຈິກ", 11}, {"ພ.ຈ.", 11}, {"ທັນວາ", 12}, {"ທ.ວ.", 12}},
		[]nameOf{{"# ມັງກອນ ##", 1}, {"# ກຸມພາ ##", 2}, {"# ມີນາ ##", 3}, {"# ເມສາ ##", 4}, {"# ພຶດສະພາ ##", 5}, {"# ມິຖຸນາ ##", 6}, {"# ກໍລະກົດ ##", 7}, {"# ສິງຫາ ##", 8}, {"# ກັນຍາ ##", 9}, {"# ຕຸລາ ##", 10}, {"# ພະຈິກ ##", 11}, {"# ທັນວາ ##", 12}},
		[]nameOf{{"ວັນຈັນ", 1}, {"ວັນອັງຄານ", 2}, {"ວັນພຸດ", 3}, {"ວັນພະຫັດ", 4}, {"ວັນສຸກ", 5}, {"ວັນເສົາ", 6}, {"ວັນອາທິດ", 0}, {"ຈັນ", 1}, {"ອັງຄານ", 2}, {"ພຸດ", 3}, {"ພະຫັດ", 4}, {"ສຸກ", 5}, {"ເສົາ", 6}},
		[]amountOf{{"1 ວິນາທີກ່ອນ", 0, -1}, {"ໃນອີກ 1 ວິນາທີ", 0, 1}, {"2 ວິນາທີກ່ອນ", 0, -2}, {"ໃນອີກ 2 ວິນາທີ", 0, 2}, {"# ວິນາທີກ່ອນ", 0, -1}, {"ໃນອີກ # ວິນາທີ", 0, 1}, {"## ວິນາທີກ່ອນ", 0, -1}, {"ໃນອີກ ## ວິນາທີ", 0, 1}, {"1 ນາທີກ່ອນ", 1, -1}, {"2 ນາທີກ່ອນ", 1, -2}, {"# ນາທີກ່ອນ", 1, -1}, {"## ນາທີກ່ອນ", 1, -1}, {"1 ຊົ່ວໂມງກ່ອນ", 2, -1}, {"ໃນອີກ 1 ຊົ່ວໂມງ", 2, 1}, {"2 ຊົ່ວໂມງກ່ອນ", 2, -2}, {"ໃນອີກ 2 ຊົ່ວໂມງ", 2, 2}, {"# ຊົ່ວໂມງກ່ອນ", 2, -1}, {"ໃນອີກ # ຊົ່ວໂມງ", 2, 1}, {"## ຊົ່ວໂມງກ່ອນ", 2, -1}, {"ໃນອີກ ## ຊົ່ວໂມງ", 2, 1}, {"1 ມື້ກ່ອນ", 3, -1}, {"ໃນອີກ 1 ມື້", 3, 1}, {"2 ມື້ກ່ອນ", 3, -2}, {"ໃນອີກ 2 ມື້", 3, 2}, {"# ມື້ກ່ອນ", 3, -1}, {"ໃນອີກ # ມື້", 3, 1}, {"## ມື້ກ່ອນ", 3, -1}, {"ໃນອີກ ## ມື້", 3, 1}, {"1 ອາທິດກ່ອນ", 4, -1}, {"ໃນອີກ 1 ອາທິດ", 4, 1}, {"2 ອາທິດກ່ອນ", 4, -2}, {"ໃນອີກ 2 ອາທິດ", 4, 2}, {"# ອາທິດກ່ອນ", 4, -1}, {"ໃນອີກ # ອາທິດ", 4, 1}, {"## ອາທິດກ່ອນ", 4, -1}, {"ໃນອີກ ## ອາທິດ", 4, 1}, {"1 ເດືອນກ່ອນ", 5, -1}, {"ໃນອີກ 1 ເດືອນ", 5, 1}, {"2 ເດືອນກ່ອນ", 5, -2}, {"ໃນອີກ 2 ເດືອນ", 5, 2}, {"# ເດືອນກ່ອນ", 5, -1}, {"ໃນອີກ # ເດືອນ", 5, 1}, {"## ເດືອນກ່ອນ", 5, -1}, {"ໃນອີກ ## ເດືອນ", 5, 1}, {"1 ປີກ່ອນ", 6, -1}, {"ໃນອີກ 1 ປີ", 6, 1}, {"2 ປີກ່ອນ", 6, -2}, {"ໃນອີກ 2 ປີ", 6, 2}, {"# ປີກ່ອນ", 6, -1}, {"ໃນອີກ # ປີ", 6, 1}, {"## ປີກ່ອນ", 6, -1}, {"ໃນອີກ ## ປີ", 6, 1}}},
	{"lrc",
		[]nameOf{{"جانڤیە", 1}, {"فئڤریە", 2}, {"مارس", 3}, {"آڤریل", 4}, {"مئی", 5}, {"جوٙأن", 6}, {"جوٙلا", 7}, {"آگوست", 8}, {"سئپتامر", 9}, {"ئوکتوڤر", 10}, {"نوڤامر", 11}, {"دئسامر", 12}},
		[]nameOf{{"## جانڤیە #", 1}, {"## فئڤریە #", 2}, {"## مارس #", 3}, {"## آڤریل #", 4}, {"## مئی #", 5}, {"## جوٙأن #", 6}, {"## جوٙلا #", 7}, {"## آگوست #", 8}, {"## سئپتامر #", 9}, {"## ئوکتوڤر #", 10}, {"## نوڤامر #", 11}, {"## دئسامر #", 12}},
		[]nameOf{{"Mon", 1}, {"Tue", 2}, {"Wed", 3}, {"Thu", 4}, {"Fri", 5}, {"Sat", 6}, {"Sun", 0}},
		[]amountOf{}},
	{"lt",
		[]nameOf{{"sausio", 1}, {"sausis", 1}, {"01", 1}, {"vasario", 2}, {"vasaris", 2}, {"02", 2}, {"kovo", 3}, {"kovas", 3}, {"03", 3}, {"balandžio", 4}, {"balandis", 4}, {"04", 4}, {"gegužės", 5}, {"gegužė", 5}, {"05", 5}, {"birželio", 6}, {"birželis", 6}, {"06", 6}, {"liepos", 7}, {"liepa", 7}, {"07", 7}, {"rugpjūčio", 8}, {"rugpjūtis", 8}, {"08", 8}, {"rugsėjo", 9}, {"rugsėjis", 9}, {"09", 9}, {"spalio", 10}, {"spalis", 10}, {"10", 10}, {"lapkričio", 11}, {"lapkritis", 11}, {"11", 11}, {"gruodžio", 12}, {"gruodis", 12}, {"12", 12}},
		[]nameOf{},
		[]nameOf{{"pirmadienis", 1}, {"antradienis", 2}, {"trečiadienis", 3}, {"ketvirtadienis", 4}, {"penktadienis", 5}, {"šeštadienis", 6}, {"sekmadienis", 0}, {"pr", 1}, {"an", 2}, {"tr", 3}, {"kt", 4}, {"pn", 5}, {"št", 6}, {"sk", 0}},
		[]amountOf{{"prieš 1 sekundę", 0, -1}, {"po 1 sekundės", 0, 1}, {"po 2 sekundžių", 0, 2}, {"po # sekundžių", 0, 1}, {"prieš ## sekundžių", 0, -1}, {"po ## sekundžių", 0, 1}, {"prieš 1 minutę", 1, -1}, {"po 1 minutės", 1, 1}, {"po 2 minučių", 1, 2}, {"po # minučių", 1, 1}, {"prieš ## minučių", 1, -1}, {"po ## minučių", 1, 1}, {"prieš 1 valandą", 2, -1}, {"po 1 valandos", 2, 1}, {"po 2 valandų", 2, 2}, {"po # valandų", 2, 1}, {"prieš ## valandų", 2, -1}, {"po ## valandų", 2, 1}, {"prieš 1 dieną", 3, -1}, {"po 1 dienos", 3, 1}, {"po 2 dienų", 3, 2}, {"po # dienų", 3, 1}, {"prieš ## dienų", 3, -1}, {"po ## dienų", 3, 1}, {"prieš 1 savaitę", 4, -1}, {"po 1 savaitės", 4, 1}, {"po 2 savaičių", 4, 2}, {"po # savaičių", 4, 1}, {"prieš ## savaičių", 4, -1}, {"po ## savaičių", 4, 1}, {"prieš 1 mėnesį", 5, -1}, {"po 1 mėnesio", 5, 1}, {"po 2 mėnesių", 5, 2}, {"po # mėnesių", 5, 1}, {"prieš ## mėnesių", 5, -1}, {"po ## mėnesių", 5, 1}, {"prieš 1 metus", 6, -1}, {"po 1 metų", 6, 1}, {"prieš 2 metus", 6, -2}, {"po 2 metų", 6, 2}, {"prieš # metus", 6, -1}, {"po # metų", 6, 1}, {"prieš ## metų", 6, -1}, {"po ## metų", 6, 1}}},
	{"lu",
		[]nameOf{{"Ciongo", 1}, {"Cio", 1}, {"Lùishi", 2}, {"Lui", 2}, {"Lusòlo", 3}, {"Lus", 3}, {"Mùuyà", 4}, {"Muu", 4}, {"Lumùngùlù", 5}, {"Lufuimi", 6}, {"Luf", 6}, {"Kabàlàshìpù", 7}, {"Kab", 7}, {"Lùshìkà", 8}, {"Lush", 8}, {"Lutongolo", 9}, {"Lut", 9}, {"Lungùdi", 10}, {"Lun", 10}, {"Kaswèkèsè", 11}, {"Kas", 11}, {"Ciswà", 12}, {"Cis", 12}},
		[]nameOf{{"# Ciongo ##", 1}, {"# Lùishi ##", 2}, {"# Lusòlo ##", 3}, {"# Mùuyà ##", 4}, {"# Lumùngùlù ##", 5}, {"# Lufuimi ##", 6}, {"# Kabàlàshìpù ##", 7}, {"# Lùshìkà ##", 8}, {"# Lutongolo ##", 9}, {"# Lungùdi ##", 10}, {"# Kaswèkèsè ##", 11}, {"# Ciswà ##", 12}},
		[]nameOf{{"Nkodya", 1}, {"Ndàayà", 2}, {"Ndangù", 3}, {"Njòwa", 4}, {"Ngòvya", 5}, {"Lubingu", 6}, {"Lumingu", 0}, {"Nko", 1}, {"Ndy", 2}, {"Ndg", 3}, {"Njw", 4}, {"Ngv", 5}, {"Lub", 6}},
		[]amountOf{}},
	{"luo",
		[]nameOf{{"Dwe mar Achiel", 1}, {"DAC", 1}, {"Dwe mar Ariyo", 2}, {"DAR", 2}, {"Dwe mar Adek", 3}, {"DAD", 3}, {"Dwe mar Ang’wen", 4}, {"DAN", 4}, {"Dwe mar Abich", 5}, {"DAH", 5}, {"Dwe mar Auchiel", 6}, {"DAU", 6}, {"Dwe mar Abiriyo", 7}, {"DAO", 7}, {"Dwe mar Aboro", 8}, {"DAB", 8}, {"Dwe mar Ochiko", 9}, {"DOC", 9}, {"Dwe mar Apar", 10}, {"DAP", 10}, {"Dwe mar gi achiel", 11}, {"DGI", 11}, {"Dwe mar Apar gi ariyo", 12}, {"DAG", 12}},
		[]nameOf{{"# Dwe mar Achiel ##", 1}, {"# Dwe mar Ariyo ##", 2}, {"# Dwe mar Adek ##", 3}, {"# Dwe mar Ang’wen ##", 4}, {"# Dwe mar Abich ##", 5}, {"# Dwe mar Auchiel ##", 6}, {"# Dwe mar Abiriyo ##", 7}, {"# Dwe mar Aboro ##", 8}, {"# Dwe mar Ochiko ##", 9}, {"# Dwe mar Apar ##", 10}, {"# Dwe mar gi achiel ##", 11}, {"# Dwe mar Apar gi ariyo ##", 12}},
		[]nameOf{{"Wuok Tich", 1}, {"Tich Ariyo", 2}, {"Tich Adek", 3}, {"Tich Ang’wen", 4}, {"Tich Abich", 5}, {"Ngeso", 6}, {"Jumapil", 0}, {"WUT", 1}, {"TAR", 2}, {"TAD", 3}, {"TAN", 4}, {"TAB", 5}, {"NGS", 6}, {"JMP", 0}},
		[]amountOf{}},
	{"luy",
		[]nameOf{{"Januari", 1}, {"Jan", 1}, {"Februari", 2}, {"Feb", 2}, {"Machi", 3}, {"Mar", 3}, {"Aprili", 4}, {"Apr", 4}, {"Mei", 5}, {"Juni", 6}, {"Jun", 6}, {"Julai", 7}, {"Jul", 7}, {"Agosti", 8}, {"Ago", 8}, {"Septemba", 9}, {"Sep", 9}, {"Oktoba", 10}, {"Okt", 10}, {"Novemba", 11}, {"Nov", 11}, {"Desemba", 12}, {"Des", 12}},
		[]nameOf{{"# Januari ##", 1}, {"# Februari ##", 2}, {"# Machi ##", 3}, {"# Aprili ##", 4}, {"# Mei ##", 5}, {"# Juni ##", 6}, {"# Julai ##", 7}, {"# Agosti ##", 8}, {"# Septemba ##", 9}, {"# Oktoba ##", 10}, {"# Novemba ##", 11}, {"# Desemba ##", 12}},
		[]nameOf{{"Jumatatu", 1}, {"Jumanne", 2}, {"Jumatano", 3}, {"Murwa wa Kanne", 4}, {"Murwa wa Katano", 5}, {"Jumamosi", 6}, {"Jumapiri", 0}, {"J3", 1}, {"J4", 2}, {"J5", 3}, {"Al", 4}, {"Ij", 5}, {"J1", 6}, {"J2", 0}},
		[]amountOf{}},
	{"lv",
		[]nameOf{{"janvāris", 1}, {"janv.", 1}, {"februāris", 2}, {"febr.", 2}, {"marts", 3}, {"aprīlis", 4}, {"apr.", 4}, {"maijs", 5}, {"jūnijs", 6}, {"jūn.", 6}, {"jūlijs", 7}, {"jūl.", 7}, {"augusts", 8}, {"aug.", 8}, {"septembris", 9}, {"sept.", 9}, {"oktobris", 10}, {"okt.", 10}, {"novembris", 11}, {"nov.", 11}, {"decembris", 12}, {"dec.", 12}},
		[]nameOf{},
		[]nameOf{{"Pirmdiena", 1}, {"Otrdiena", 2}, {"Trešdiena", 3}, {"Ceturtdiena", 4}, {"Piektdiena", 5}, {"Sestdiena", 6}, {"Svētdiena", 0}, {"Pirmd.", 1}, {"Otrd.", 2}, {"Trešd.", 3}, {"Ceturtd.", 4}, {"Piektd.", 5}, {"Sestd.", 6}, {"Svētd.", 0}},
		[]amountOf{{"pirms 1 sekundes", 0, -1}, {"pēc 1 sekundes", 0, 1}, {"pirms 2 sekundēm", 0, -2}, {"pēc 2 sekundēm", 0, 2}, {"pirms # sekundēm", 0, -1}, {"pēc # sekundēm", 0, 1}, {"pirms ## sekundēm", 0, -1}, {"pēc ## sekundēm", 0, 1}, {"pirms 1 minūtes", 1, -1}, {"pēc 1 minūtes", 1, 1}, {"pirms 2 minūtēm", 1, -2}, {"pēc 2 minūtēm", 1, 2}, {"pirms # minūtēm", 1, -1}, {"pēc # minūtēm", 1, 1}, {"pirms ## minūtēm", 1, -1}, {"pēc ## minūtēm", 1, 1}, {"pirms 1 stundas", 2, -1}, {"pēc 1 stundas", 2, 1}, {"pirms 2 stundām", 2, -2}, {"pēc 2 stundām", 2, 2}, {"pirms # stundām", 2, -1}, {"pēc # stundām", 2, 1}, {"pirms ## stundām", 2, -1}, {"pēc ## stundām", 2, 1}, {"pirms 1 dienas", 3, -1}, {"pēc 1 dienas", 3, 1}, {"pirms 2 dienām", 3, -2}, {"pēc 2 dienām", 3, 2}, {"pirms # dienām", 3, -1}, {"pēc # dienām", 3, 1}, {"pirms ## dienām", 3, -1}, {"pēc ## dienām", 3, 1}, {"pirms 1 nedēļas", 4, -1}, {"pēc 1 nedēļas", 4, 1}, {"pirms 2 nedēļām", 4, -2}, {"pēc 2 nedēļām", 4, 2}, {"pirms # nedēļām", 4, -1}, {"pēc # nedēļām", 4, 1}, {"pirms ## nedēļām", 4, -1}, {"pēc ## nedēļām", 4, 1}, {"pirms 1 mēneša", 5, -1}, {"pēc 1 mēneša", 5, 1}, {"pirms 2 mēnešiem", 5, -2}, {"pēc 2 mēnešiem", 5, 2}, {"pirms # mēnešiem", 5, -1}, {"pēc # mēnešiem", 5, 1}, {"pirms ## mēnešiem", 5, -1}, {"pēc ## mēnešiem", 5, 1}, {"pirms 1 gada", 6, -1}, {"pēc 1 gada", 6, 1}, {"pirms 2 gadiem", 6, -2}, {"pēc 2 gadiem", 6, 2}, {"pirms # gadiem", 6, -1}, {"pēc # gadiem", 6, 1}, {"pirms ## gadiem", 6, -1}, {"pēc ## gadiem", 6, 1}}},
	{"mas",
		[]nameOf{{"Oladalʉ́", 1}, {"Dal", 1}, {"Arát", 2}, {"Ará", 2}, {"Ɔɛnɨ́ɔɨŋɔk", 3}, {"Ɔɛn", 3}, {"Olodoyíóríê inkókúâ", 4}, {"Doy", 4}, {"Oloilépūnyīē inkókúâ", 5}, {"Lép", 5}, {"Kújúɔrɔk", 6}, {"Rok", 6}, {"Mórusásin", 7}, {"Sás", 7}, {"Ɔlɔ́ɨ́bɔ́rárɛ", 8}, {"Bɔ́r", 8}, {"Kúshîn", 9}, {"Kús", 9}, {"Olgísan", 10}, {"Gís", 10}, {"Pʉshʉ́ka", 11}, {"Shʉ́", 11}, {"Ntʉ́ŋʉ́s", 12}, {"Ntʉ́", 12}},
		[]nameOf{{"# Oladalʉ́ ##", 1}, {"# Arát ##", 2}, {"# Ɔɛnɨ́ɔɨŋɔk ##", 3}, {"# Olodoyíóríê inkókúâ ##", 4}, {"# Oloilépūnyīē inkókúâ ##", 5}, {"# Kújúɔrɔk ##", 6}, {"# Mórusásin ##", 7}, {"# Ɔlɔ́ɨ́bɔ́rárɛ ##", 8}, {"# Kúshîn ##", 9}, {"# Olgísan ##", 10}, {"# Pʉshʉ́ka ##", 11}, {"# Ntʉ́ŋʉ́s ##", 12}},
		[]nameOf{{"Jumatátu", 1}, {"Jumane", 2}, {"Jumatánɔ", 3}, {"Alaámisi", 4}, {"Jumáa", 5}, {"Jumamósi", 6}, {"Jumapílí", 0}, {"Jtt", 1}, {"Jnn", 2}, {"Jtn", 3}, {"Alh", 4}, {"Iju", 5}, {"Jmo", 6}, {"Jpi", 0}},
		[]amountOf{}},
	{"mer",
		[]nameOf{{"Januarĩ", 1}, {"JAN", 1}, {"Feburuarĩ", 2}, {"FEB", 2}, {"Machi", 3}, {"MAC", 3}, {"Ĩpurũ", 4}, {"ĨPU", 4}, {"Mĩĩ", 5}, {"MĨĨ", 5}, {"Njuni", 6}, {"NJU", 6}, {"Njuraĩ", 7}, {"NJR", 7}, {"Agasti", 8}, {"AGA", 8}, {"Septemba", 9}, {"SPT", 9}, {"Oktũba", 10}, {"OKT", 10}, {"Novemba", 11}, {"NOV", 11}, {"Dicemba", 12}, {"DEC", 12}},
		[]nameOf{{"# Januarĩ ##", 1}, {"# Feburuarĩ ##", 2}, {"# Machi ##", 3}, {"# Ĩpurũ ##", 4}, {"# Mĩĩ ##", 5}, {"# Njuni ##", 6}, {"# Njuraĩ ##", 7}, {"# Agasti ##", 8}, {"# Septemba ##", 9}, {"# Oktũba ##", 10}, {"# Novemba ##", 11}, {"# Dicemba ##", 12}},
		[]nameOf{{"Muramuko", 1}, {"Wairi", 2}, {"Wethatu", 3}, {"Wena", 4}, {"Wetano", 5}, {"Jumamosi", 6}, {"Kiumia", 0}, {"MRA", 1}, {"WAI", 2}, {"WET", 3}, {"WEN", 4}, {"WTN", 5}, {"JUM", 6}, {"KIU", 0}},
		[]amountOf{}},
	{"mfe",
		[]nameOf{{"zanvie", 1}, {"zan", 1}, {"fevriye", 2}, {"fev", 2}, {"mars", 3}, {"avril", 4}, {"avr", 4}, {"me", 5}, {"zin", 6}, {"zilye", 7}, {"zil", 7}, {"out", 8}, {"septam", 9}, {"sep", 9}, {"oktob", 10}, {"okt", 10}, {"novam", 11}, {"nov", 11}, {"desam", 12}, {"des", 12}},
		[]nameOf{{"# zanvie ##", 1}, {"# fevriye ##", 2}, {"# mars ##", 3}, {"# avril ##", 4}, {"# me ##", 5}, {"# zin ##", 6}, {"# zilye ##", 7}, {"# out ##", 8}, {"# septam ##", 9}, {"# oktob ##", 10}, {"# novam ##", 11}, {"# desam ##", 12}},
		[]nameOf{{"lindi", 1}, {"mardi", 2}, {"merkredi", 3}, {"zedi", 4}, {"vandredi", 5}, {"samdi", 6}, {"dimans", 0}, {"lin", 1}, {"mer", 3}, {"ze", 4}, {"van", 5}, {"sam", 6}, {"dim", 0}},
		[]amountOf{}},
	{"mg",
		[]nameOf{{"Janoary", 1}, {"Jan", 1}, {"Febroary", 2}, {"Feb", 2}, {"Martsa", 3}, {"Mar", 3}, {"Aprily", 4}, {"Apr", 4}, {"Mey", 5}, {"Jona", 6}, {"Jon", 6}, {"Jolay", 7}, {"Jol", 7}, {"Aogositra", 8}, {"Aog", 8}, {"Septambra", 9}, {"Sep", 9}, {"Oktobra", 10}, {"Okt", 10}, {"Novambra", 11}, {"Nov", 11}, {"Desambra", 12}, {"Des", 12}},
		[]nameOf{{"# Janoary ##", 1}, {"# Febroary ##", 2}, {"# Martsa ##", 3}, {"# Aprily ##", 4}, {"# Mey ##", 5}, {"# Jona ##", 6}, {"# Jolay ##", 7}, {"# Aogositra ##", 8}, {"# Septambra ##", 9}, {"# Oktobra ##", 10}, {"# Novambra ##", 11}, {"# Desambra ##", 12}},
		[]nameOf{{"Alatsinainy", 1}, {"Talata", 2}, {"Alarobia", 3}, {"Alakamisy", 4}, {"Zoma", 5}, {"Asabotsy", 6}, {"Alahady", 0}, {"Alats", 1}, {"Tal", 2}, {"Alar", 3}, {"Alak", 4}, {"Zom", 5}, {"Asab", 6}, {"Alah", 0}},
		[]amountOf{}},
	{"mgh",
		[]nameOf{{"Mweri wo kwanza", 1}, {"Kwa", 1}, {"Mweri wo unayeli", 2}, {"Una", 2}, {"Mweri wo uneraru", 3}, {"Rar", 3}, {"Mweri wo unecheshe", 4}, {"Che", 4}, {"Mweri wo unethanu", 5}, {"Tha", 5}, {"Mweri wo thanu na mocha", 6}, {"Moc", 6}, {"Mweri wo saba", 7}, {"Mweri wo nane", 8}, {"Nan", 8}, {"Mweri wo tisa", 9}, {"Tis", 9}, {"Mweri wo kumi", 10}, {"Kum", 10}, {"Mweri wo kumi na moja", 11}, {"Moj", 11}, {"Mweri wo kumi na yel’li", 12}, {"Yel", 12}},
		[]nameOf{{"# Mweri wo kwanza ##", 1}, {"# Mweri wo unayeli ##", 2}, {"# Mweri wo uneraru ##", 3}, {"# Mweri wo unecheshe ##", 4}, {"# Mweri wo unethanu ##", 5}, {"# Mweri wo thanu na mocha ##", 6}, {"# Mweri wo saba ##", 7}, {"# Mweri wo nane ##", 8}, {"# Mweri wo tisa ##", 9}, {"# Mweri wo kumi ##", 10}, {"# Mweri wo kumi na moja ##", 11}, {"# Mweri wo kumi na yel’li ##", 12}},
		[]nameOf{{"Jumatatu", 1}, {"Jumanne", 2}, {"Jumatano", 3}, {"Arahamisi", 4}, {"Ijumaa", 5}, {"Jumamosi", 6}, {"Sabato", 0}, {"Jtt", 1}, {"Jnn", 2}, {"Jtn", 3}, {"Ara", 4}, {"Iju", 5}, {"Jmo", 6}},
		[]amountOf{}},
	{"mgo",
		[]nameOf{{"iməg mbegtug", 1}, {"mbegtug", 1}, {"imeg àbùbì", 2}, {"imeg mbəŋchubi", 3}, {"iməg ngwə̀t", 4}, {"iməg fog", 5}, {"iməg ichiibɔd", 6}, {"iməg àdùmbə̀ŋ", 7}, {"iməg ichika", 8}, {"iməg kud", 9}, {"iməg tèsiʼe", 10}, {"iməg zò", 11}, {"iməg krizmed", 12}},
		[]nameOf{{"## iməg mbegtug #", 1}, {"## imeg àbùbì #", 2}, {"## imeg mbəŋchubi #", 3}, {"## iməg ngwə̀t #", 4}, {"## iməg fog #", 5}, {"## iməg ichiibɔd #", 6}, {"## iməg àdùmbə̀ŋ #", 7}, {"## iməg ichika #", 8}, {"## iməg kud #", 9}, {"## iməg tèsiʼe #", 10}, {"## iməg zò #", 11}, {"## iməg krizmed #", 12}},
		[]nameOf{{"Aneg 2", 1}, {"Aneg 3", 2}, {"Aneg 4", 3}, {"Aneg 5", 4}, {"Aneg 6", 5}, {"Aneg 7", 6}, {"Aneg 1", 0}},
		[]amountOf{}},
	{"mk",
		[]nameOf{{"јануари", 1}, {"јан.", 1}, {"февруари", 2}, {"фев.", 2}, {"март", 3}, {"мар.", 3}, {"април", 4}, {"апр.", 4}, {"мај", 5}, {"јуни", 6}, {"јун.", 6}, {"јули", 7}, {"јул.", 7}, {"август", 8}, {"авг.", 8}, {"септември", 9}, {"октомври", 10}, {"окт.", 10}, {"ноември", 11}, {"декември", 12}, {"дек.", 12}},
		[]nameOf{{"# јануари ## г.", 1}, {"# февруари ## г.", 2}, {"# март ## г.", 3}, {"# април ## г.", 4}, {"# мај ## г.", 5}, {"# јуни ## г.", 6}, {"# јули ## г.", 7}, {"# август ## г.", 8}, {"# септември ## г.", 9}, {"# октомври ## г.", 10}, {"# ноември ## г.", 11}, {"# декември ## г.", 12}},
		[]nameOf{{"понеделник", 1}, {"вторник", 2}, {"среда", 3}, {"четврток", 4}, {"петок", 5}, {"сабота", 6}, {"недела", 0}, {"пон.", 1}, {"вто.", 2}, {"сре.", 3}, {"чет.", 4}, {"пет.", 5}, {"саб.", 6}, {"нед.", 0}},
		[]amountOf{{"пред 1 секунда", 0, -1}, {"за 1 секунда", 0, 1}, {"пред 2 секунди", 0, -2}, {"за 2 секунди", 0, 2}, {"пред # секунди", 0, -1}, {"за # секунди", 0, 1}, {"пред ## секунди", 0, -1}, {"за ## секунди", 0, 1}, {"пред 1 минута", 1, -1}, {"за 1 минута", 1, 1}, {"пред 2 минути", 1, -2}, {"за 2 минути", 1, 2}, {"пред # минути", 1, -1}, {"за # минути", 1, 1}, {"пред ## минути", 1, -1}, {"за ## минути", 1, 1}, {"пред 1 час", 2, -1}, {"за 1 час", 2, 1}, {"пред 2 часа", 2, -2}, {"за 2 часа", 2, 2}, {"пред # часа", 2, -1}, {"за # часа", 2, 1}, {"пред ## часа", 2, -1}, {"за ## часа", 2, 1}, {"пред 1 ден", 3, -1}, {"за 1 ден", 3, 1}, {"пред 2 дена", 3, -2}, {"за 2 дена", 3, 2}, {"пред # дена", 3, -1}, {"за # дена", 3, 1}, {"пред ## дена", 3, -1}, {"за ## дена", 3, 1}, {"пред 1 седмица", 4, -1}, {"за 1 седмица", 4, 1}, {"пред 2 седмици", 4, -2}, {"за 2 седмици", 4, 2}, {"пред # седмици", 4, -1}, {"за # седмици", 4, 1}, {"пред ## седмици", 4, -1}, {"за ## седмици", 4, 1}, {"пред 1 месец", 5, -1}, {"за 1 месец", 5, 1}, {"пред 2 месеци", 5, -2}, {"за 2 месеци", 5, 2}, {"пред # месеци", 5, -1}, {"за # месеци", 5, 1}, {"пред ## месеци", 5, -1}, {"за ## месеци", 5, 1}, {"пред 1 година", 6, -1}, {"за 1 година", 6, 1}, {"пред 2 години", 6, -2}, {"за 2 години", 6, 2}, {"пред # години", 6, -1}, {"за # години", 6, 1}, {"пред ## години", 6, -1}, {"за ## години", 6, 1}}},
	{"ml",
		[]nameOf{{"ജനുവരി", 1}, {"ജനു", 1}, {"ഫെബ്രുവരി", 2}, {"ഫെബ്രു", 2}, {"മാർച്ച്", 3}, {"മാർ", 3}, {"ഏപ്രിൽ", 4}, {"ഏപ്രി", 4}, {"മേയ്", 5}, {"ജൂൺ", 6}, {"ജൂലൈ", 7}, {"ഓഗസ്റ്റ്", 8}, {"ഓഗ", 8}, {"സെപ്റ്റംബർ", 9}, {"സെപ്റ്റം", 9}, {"ഒക്\u200cടോബർ", 10}, {"ഒക്ടോ", 10}, {"നവംബർ", 11}, {"നവം", 11}, {"ഡിസംബർ", 12}, {"ഡിസം", 12}},
		[]nameOf{{"## ജനുവരി #", 1}, {"## ഫെബ്രുവരി #", 2}, {"## മാർച്ച് #", 3}, {"## ഏപ്രിൽ #", 4}, {"## മേയ് #", 5}, {"## ജൂൺ #", 6}, {"## ജൂലൈ #", 7}, {"## ഓഗസ്റ്റ് #", 8}, {"## സെപ്റ്റംബർ #", 9}, {"## ഒക്\u200cടോബർ #", 10}, {"## നവംബർ #", 11}, {"## ഡിസംബർ #", 12}},
		[]nameOf{{"തിങ്കളാഴ്\u200cച", 1}, {"ചൊവ്വാഴ്\u200cച", 2}, {"ബുധനാഴ്\u200cച", 3}, {"വ്യാഴാഴ്\u200cച", 4}, {"വെള്ളിയാഴ്\u200cച", 5}, {"ശനിയാഴ്\u200cച", 6}, {"ഞായറാഴ്\u200cച", 0}, {"തിങ്കൾ", 1}, {"ചൊവ്വ", 2}, {"ബുധൻ", 3}, {"വ്യാഴം", 4}, {"വെള്ളി", 5}, {"ശനി", 6}, {"ഞായർ", 0}},
		[]amountOf{{"1 സെക്കൻഡ് മുമ്പ്", 0, -1}, {"1 സെക്കൻഡിൽ", 0, 1}, {"2 സെക്കൻഡ് മുമ്പ്", 0, -2}, {"2 സെക്കൻഡിൽ", 0, 2}, {"# സെക്കൻഡ് മുമ്പ്", 0, -1}, {"# സെക്കൻഡിൽ", 0, 1}, {"## സെക്കൻഡ് മുമ്പ്", 0, -1}, {"## സെക്കൻഡിൽ", 0, 1}, {"1 മിനിറ്റ് മുമ്പ്", 1, -1}, {"1 മിനിറ്റിൽ", 1, 1}, {"2 മിനിറ്റ് മുമ്പ്", 1, -2}, {"2 മിനിറ്റിൽ", 1, 2}, {"# മിനിറ്റ് മുമ്പ്", 1, -1}, {"# മിനിറ്റിൽ", 1, 1}, {"## മിനിറ്റ് മുമ്പ്", 1, -1}, {"## മിനിറ്റിൽ", 1, 1}, {"1 മണിക്കൂർ മുമ്പ്", 2, -1}, {"1 മണിക്കൂറിൽ", 2, 1}, {"2 മണിക്കൂർ മുമ്പ്", 2, -2}, {"2 മണിക്കൂറിൽ", 2, 2}, {"# മണിക്കൂർ മുമ്പ്", 2, -1}, {"# മണിക്കൂറിൽ", 2, 1}, {"## മണിക്കൂർ മുമ്പ്", 2, -1}, {"## മണിക്കൂറിൽ", 2, 1}, {"1 ദിവസം മുമ്പ്", 3, -1}, {"1 ദിവസത്തിൽ", 3, 1}, {"2 ദിവസം മുമ്പ്", 3, -2}, {"2 ദിവസത്തിൽ", 3, 2}, {"# ദിവസം മുമ്പ്", 3, -1}, {"# ദിവസത്തിൽ", 3, 1}, {"## ദിവസം മുമ്പ്", 3, -1}, {"## ദിവസത്തിൽ", 3, 1}, {"1 ആഴ്ച മുമ്പ്", 4, -1}, {"1 ആഴ്ചയിൽ", 4, 1}, {"2 ആഴ്ച മുമ്പ്", 4, -2}, {"2 ആഴ്ചയിൽ", 4, 2}, {"# ആഴ്ച മുമ്പ്", 4, -1}, {"# ആഴ്ചയിൽ", 4, 1}, {"## ആഴ്ച മുമ്പ്", 4, -1}, {"## ആഴ്ചയിൽ", 4, 1}, {"1 മാസം മുമ്പ്", 5, -1}, {"1 മാസത്തിൽ", 5, 1}, {"2 മാസം മുമ്പ്", 5, -2}, {"2 മാസത്തിൽ", 5, 2}, {"# മാസം മുമ്പ്", 5, -1}, {"# മാസത്തിൽ", 5, 1}, {"## മാസം മുമ്പ്", 5, -1}, {"## മാസത്തിൽ", 5, 1}, {"1 വർഷം മുമ്പ്", 6, -1}, {"1 വർഷത്തിൽ", 6, 1}, {"2 വർഷം മുമ്പ്", 6, -2}, {"2 വർഷത്തിൽ", 6, 2}, {"# വർഷം മുമ്പ്", 6, -1}, {"# വർഷത്തിൽ", 6, 1}, {"## വർഷം മുമ്പ്", 6, -1}, {"## വർഷത്തിൽ", 6, 1}}},
	{"mn",
		[]nameOf{{"нэгдүгээр сар", 1}, {"Нэгдүгээр сар", 1}, {"1-р сар", 1}, {"хоёрдугаар сар", 2}, {"Хоёрдугаар сар", 2}, {"2-р сар", 2}, {"гуравдугаар сар", 3}, {"Гуравдугаар сар", 3}, {"3-р сар", 3}, {"дөрөвдүгээр сар", 4}, {"Дөрөвдүгээр сар", 4}, {"4-р сар", 4}, {"тавдугаар сар", 5}, {"Тавдугаар сар", 5}, {"5-р сар", 5}, {"6-р сар", 6}, {"7-р сар", 7}, {"наймдугаар сар", 8}, {"Наймдугаар сар", 8}, {"8-р сар", 8}, {"есдүгээр сар", 9}, {"Есдүгээр сар", 9}, {"9-р сар", 9}, {"аравдугаар сар", 10}, {"Аравдугаар сар", 10}, {"10-р сар", 10}, {"арван нэгдүгээр сар", 11}, {"Арван нэгдүгээр сар", 11}, {"11-р сар", 11}, {"арван хоёрдугаар сар", 12}, {"Арван хоёрдугаар сар", 12}, {"12-р сар", 12}},
		[]nameOf{},
		[]nameOf{{"Даваа", 1}, {"Мягмар", 2}, {"Лхагва", 3}, {"Пүрэв", 4}, {"Баасан", 5}, {"Бямба", 6}, {"Ням", 0}, {"Да", 1}, {"Мя", 2}, {"Лх", 3}, {"Пү", 4}, {"Ба", 5}, {"Бя", 6}, {"Ня", 0}},
		[]amountOf{{"1 секундын өмнө", 0, -1}, {"1 секундын дараа", 0, 1}, {"2 секундын өмнө", 0, -2}, {"2 секундын дараа", 0, 2}, {"# секундын өмнө", 0, -1}, {"# секундын дараа", 0, 1}, {"## секундын өмнө", 0, -1}, {"## секундын дараа", 0, 1}, {"1 минутын өмнө", 1, -1}, {"1 минутын дараа", 1, 1}, {"2 минутын өмнө", 1, -2}, {"2 минутын дараа", 1, 2}, {"# минутын өмнө", 1, -1}, {"# минутын дараа", 1, 1}, {"## минутын өмнө", 1, -1}, {"## минутын дараа", 1, 1}, {"1 цагийн өмнө", 2, -1}, {"1 цагийн дараа", 2, 1}, {"2 цагийн өмнө", 2, -2}, {"2 цагийн дараа", 2, 2}, {"# цагийн өмнө", 2, -1}, {"# цагийн дараа", 2, 1}, {"## цагийн өмнө", 2, -1}, {"## цагийн дараа", 2, 1}, {"1 өдрийн өмнө", 3, -1}, {"1 өдрийн дараа", 3, 1}, {"2 өдрийн өмнө", 3, -2}, {"2 өдрийн дараа", 3, 2}, {"# өдрийн өмнө", 3, -1}, {"# өдрийн дараа", 3, 1}, {"## өдрийн өмнө", 3, -1}, {"## өдрийн дараа", 3, 1}, {"1 сарын өмнө", 5, -1}, {"1 сарын дараа", 5, 1}, {"2 сарын өмнө", 5, -2}, {"2 сарын дараа", 5, 2}, {"# сарын өмнө", 5, -1}, {"# сарын дараа", 5, 1}, {"## сарын өмнө", 5, -1}, {"## сарын дараа", 5, 1}, {"1 жилийн өмнө", 6, -1}, {"1 жилийн дараа", 6, 1}, {"2 жилийн өмнө", 6, -2}, {"2 жилийн дараа", 6, 2}, {"# жилийн өмнө", 6, -1}, {"# жилийн дараа", 6, 1}, {"## жилийн өмнө", 6, -1}, {"## жилийн дараа", 6, 1}}},
	{"mr",
		[]nameOf{{"जानेवारी", 1}, {"जाने", 1}, {"फेब्रुवारी", 2}, {"फेब्रु", 2}, {"मार्च", 3}, {"एप्रिल", 4}, {"एप्रि", 4}, {"मे", 5}, {"जून", 6}, {"जुलै", 7}, {"ऑगस्ट", 8}, {"ऑग", 8}, {"सप्टेंबर", 9}, {"सप्टें", 9}, {"ऑक्टोबर", 10}, {"ऑक्टो", 10}, {"नोव्हेंबर", 11}, {"नोव्हें", 11}, {"डिसेंबर", 12}, {"डिसें", 12}},
		[]nameOf{{"# जानेवारी, ##", 1}, {"# फेब्रुवारी, ##", 2}, {"# मार्च, ##", 3}, {"# एप्रिल, ##", 4}, {"# मे, ##", 5}, {"# जून, ##", 6}, {"# जुलै, ##", 7}, {"# ऑगस्ट, ##", 8}, {"# सप्टेंबर, ##", 9}, {"# ऑक्टोबर, ##", 10}, {"# नोव्हेंबर, ##", 11}, {"# डिसेंबर, ##", 12}},
		[]nameOf{{"सोमवार", 1}, {"मंगळवार", 2}, {"बुधवार", 3}, {"गुरुवार", 4}, {"शुक्रवार", 5}, {"शनिवार", 6}, {"रविवार", 0}, {"सोम", 1}, {"मंगळ", 2}, {"बुध", 3}, {"गुरु", 4}, {"शुक्र", 5}, {"शनि", 6}, {"रवि", 0}},
		[]amountOf{{"1 सेकंदापूर्वी", 0, -1}, {"1 सेकंदामध्ये", 0, 1}, {"2 सेकंदांपूर्वी", 0, -2}, {"2 सेकंदांमध्ये", 0, 2}, {"# सेकंदांपूर्वी", 0, -1}, {"# सेकंदांमध्ये", 0, 1}, {"## सेकंदांपूर्वी", 0, -1}, {"## सेकंदांमध्ये", 0, 1}, {"1 मिनिटापूर्वी", 1, -1}, {"1 मिनिटामध्ये", 1, 1}, {"2 मिनिटांपूर्वी", 1, -2}, {"2 मिनिटांमध्ये", 1, 2}, {"# मिनिटांपूर्वी", 1, -1}, {"# मिनिटांमध्ये", 1, 1}, {"## मिनिटांपूर्वी", 1, -1}, {"## मिनिटांमध्ये", 1, 1}, {"1 तासापूर्वी", 2, -1}, {"1 तासामध्ये", 2, 1}, {"2 तासांपूर्वी", 2, -2}, {"2 तासांमध्ये", 2, 2}, {"# तासांपूर्वी", 2, -1}, {"# तासांमध्ये", 2, 1}, {"## तासांपूर्वी", 2, -1}, {"## तासांमध्ये", 2, 1}, {"1 दिवसापूर्वी", 3, -1}, {"2 दिवसांपूर्वी", 3, -2}, {"# दिवसांपूर्वी", 3, -1}, {"## दिवसांपूर्वी", 3, -1}, {"1 आठवड्यापूर्वी", 4, -1}, {"1 आठवड्यामध्ये", 4, 1}, {"2 आठवड्यांपूर्वी", 4, -2}, {"2 आठवड्यांमध्ये", 4, 2}, {"# आठवड्यांपूर्वी", 4, -1}, {"# आठवड्यांमध्ये", 4, 1}, {"## आठवड्यांपूर्वी", 4, -1}, {"## आठवड्यांमध्ये", 4, 1}, {"1 महिन्यापूर्वी", 5, -1}, {"2 महिन्यांपूर्वी", 5, -2}, {"# महिन्यांपूर्वी", 5, -1}, {"## महिन्यांपूर्वी", 5, -1}, {"1 वर्षापूर्वी", 6, -1}, {"2 वर्षांपूर्वी", 6, -2}, {"# वर्षांपूर्वी", 6, -1}, {"## वर्षांपूर्वी", 6, -1}}},
	{"ms",
		[]nameOf{{"Januari", 1}, {"Jan", 1}, {"Februari", 2}, {"Feb", 2}, {"Mac", 3}, {"April", 4}, {"Apr", 4}, {"Mei", 5}, {"Jun", 6}, {"Julai", 7}, {"Jul", 7}, {"Ogos", 8}, {"Ogo", 8}, {"September", 9}, {"Sep", 9}, {"Oktober", 10}, {"Okt", 10}, {"November", 11}, {"Nov", 11}, {"Disember", 12}, {"Dis", 12}},
		[]nameOf{{"# Januari ##", 1}, {"# Februari ##", 2}, {"# Mac ##", 3}, {"# April ##", 4}, {"# Mei ##", 5}, {"# Jun ##", 6}, {"# Julai ##", 7}, {"# Ogos ##", 8}, {"# September ##", 9}, {"# Oktober ##", 10}, {"# November ##", 11}, {"# Disember ##", 12}},
		[]nameOf{{"Isnin", 1}, {"Selasa", 2}, {"Rabu", 3}, {"Khamis", 4}, {"Jumaat", 5}, {"Sabtu", 6}, {"Ahad", 0}, {"Isn", 1}, {"Sel", 2}, {"Rab", 3}, {"Kha", 4}, {"Jum", 5}, {"Sab", 6}, {"Ahd", 0}},
		[]amountOf{{"1 saat lalu", 0, -1}, {"dalam 1 saat", 0, 1}, {"2 saat lalu", 0, -2}, {"dalam 2 saat", 0, 2}, {"# saat lalu", 0, -1}, {"dalam # saat", 0, 1}, {"## saat lalu", 0, -1}, {"dalam ## saat", 0, 1}, {"1 minit lalu", 1, -1}, {"dalam 1 minit", 1, 1}, {"2 minit lalu", 1, -2}, {"dalam 2 minit", 1, 2}, {"# minit lalu", 1, -1}, {"dalam # minit", 1, 1}, {"## minit lalu", 1, -1}, {"dalam ## minit", 1, 1}, {"1 jam lalu", 2, -1}, {"dalam 1 jam", 2, 1}, {"2 jam lalu", 2, -2}, {"dalam 2 jam", 2, 2}, {"# jam lalu", 2, -1}, {"dalam # jam", 2, 1}, {"## jam lalu", 2, -1}, {"dalam ## jam", 2, 1}, {"1 hari lalu", 3, -1}, {"dalam 1 hari", 3, 1}, {"2 hari lalu", 3, -2}, {"dalam 2 hari", 3, 2}, {"# hari lalu", 3, -1}, {"dalam # hari", 3, 1}, {"## hari lalu", 3, -1}, {"dalam ## hari", 3, 1}, {"1 minggu lalu", 4, -1}, {"dalam 1 minggu", 4, 1}, {"2 minggu lalu", 4, -2}, {"dalam 2 minggu", 4, 2}, {"# minggu lalu", 4, -1}, {"dalam # minggu", 4, 1}, {"## minggu lalu", 4, -1}, {"dalam ## minggu", 4, 1}, {"1 bulan lalu", 5, -1}, {"dalam 1 bulan", 5, 1}, {"2 bulan lalu", 5, -2}, {"dalam 2 bulan", 5, 2}, {"# bulan lalu", 5, -1}, {"dalam # bulan", 5, 1}, {"## bulan lalu", 5, -1}, {"dalam ## bulan", 5, 1}, {"1 tahun lalu", 6, -1}, {"2 tahun lalu", 6, -2}, {"# tahun lalu", 6, -1}, {"## tahun lalu", 6, -1}}},
	{"mt",
		[]nameOf{{"Jannar", 1}, {"Jan", 1}, {"Frar", 2}, {"Fra", 2}, {"Marzu", 3}, {"Mar", 3}, {"April", 4}, {"Apr", 4}, {"Mejju", 5}, {"Mej", 5}, {"Ġunju", 6}, {"Ġun", 6}, {"Lulju", 7}, {"Lul", 7}, {"Awwissu", 8}, {"Aww", 8}, {"Settembru", 9}, {"Set", 9}, {"Ottubru", 10}, {"Ott", 10}, {"Novembru", 11}, {"Nov", 11}, {"Diċembru", 12}, {"Diċ", 12}},
		[]nameOf{},
		[]nameOf{{"It-Tnejn", 1}, {"It-Tlieta", 2}, {"L-Erbgħa", 3}, {"Il-Ħamis", 4}, {"Il-Ġimgħa", 5}, {"Is-Sibt", 6}, {"Il-Ħadd", 0}, {"Tne", 1}, {"Tli", 2}, {"Erb", 3}, {"Ħam", 4}, {"Ġim", 5}, {"Sib", 6}, {"Ħad", 0}},
		[]amountOf{{"# snin ilu", 6, -1}, {"## snin ilu", 6, -1}}},
	{"mua",
		[]nameOf{{"Fĩi Loo", 1}, {"FLO", 1}, {"Cokcwaklaŋne", 2}, {"Cokcwaklii", 3}, {"CKI", 3}, {"Fĩi Marfoo", 4}, {"FMF", 4}, {"Madǝǝuutǝbijaŋ", 5}, {"MAD", 5}, {"Mamǝŋgwãafahbii", 6}, {"MBI", 6}, {"Mamǝŋgwãalii", 7}, {"MLI", 7}, {"Madǝmbii", 8}, {"MAM", 8}, {"Fĩi Dǝɓlii", 9}, {"FDE", 9}, {"Fĩi Mundaŋ", 10}, {"FMU", 10}, {"Fĩi Gwahlle", 11}, {"FGW", 11}, {"Fĩi Yuru", 12}, {"FYU", 12}},
		[]nameOf{{"# Fĩi Loo ##", 1}, {"# Cokcwaklaŋne ##", 2}, {"# Cokcwaklii ##", 3}, {"# Fĩi Marfoo ##", 4}, {"# Madǝǝuutǝbijaŋ ##", 5}, {"# Mamǝŋgwãafahbii ##", 6}, {"# Mamǝŋgwãalii ##", 7}, {"# Madǝmbii ##", 8}, {"# Fĩi Dǝɓlii ##", 9}, {"# Fĩi Mundaŋ ##", 10}, {"# Fĩi Gwahlle ##", 11}, {"# Fĩi Yuru ##", 12}},
		[]nameOf{{"Comlaaɗii", 1}, {"Comzyiiɗii", 2}, {"Comkolle", 3}, {"Comkaldǝɓlii", 4}, {"Comgaisuu", 5}, {"Comzyeɓsuu", 6}, {"Com’yakke", 0}, {"Czi", 2}, {"Cko", 3}, {"Cka", 4}, {"Cga", 5}, {"Cze", 6}, {"Cya", 0}},
		[]amountOf{}},
	{"my",
		[]nameOf{{"ဇန်နဝါရီ", 1}, {"ဇန်", 1}, {"ဖေဖော်ဝါရီ", 2}, {"ဖေ", 2}, {"မတ်", 3}, {"ဧပြီ", 4}, {"ဧ", 4}, {"မေ", 5}, {"ဇွန်", 6}, {"ဇူလိုင်", 7}, {"ဇူ", 7}, {"ဩဂုတ်", 8}, {"ဩ", 8}, {"စက်တင်ဘာ", 9}, {"စက်", 9}, {"အောက်တိုဘာ", 10}, {"အောက်", 10}, {"နိုဝင်ဘာ", 11}, {"နို", 11}, {"ဒီဇင်ဘာ", 12}, {"ဒီ", 12}},
		[]nameOf{{"## ဇန်နဝါရီ #", 1}, {"## ဖေဖော်ဝါရီ #", 2}, {"## မတ် #", 3}, {"## ဧပြီ #", 4}, {"## မေ #", 5}, {"## ဇွန် #", 6}, {"## ဇူလိုင် #", 7}, {"## ဩဂုတ် #", 8}, {"## စက်တင်ဘာ #", 9}, {"## အောက်တိုဘာ #", 10}, {"## နိုဝင်ဘာ #", 11}, {"## ဒီဇင်ဘာ #", 12}},
		[]nameOf{{"တနင်္လာ", 1}, {"အင်္ဂါ", 2}, {"ဗုဒ္ဓဟူး", 3}, {"ကြာသပတေး", 4}, {"သောကြာ", 5}, {"စနေ", 6}, {"တနင်္ဂနွေ", 0}},
		[]amountOf{{"ပြီးခဲ့သည့် 1 စက္ကန့်", 0, -1}, {"1 စက္ကန့်အတွင်း", 0, 1}, {"ပြီးခဲ့သည့် 2 စက္ကန့်", 0, -2}, {"2 စက္ကန့်အတွင်း", 0, 2}, {"ပြီးခဲ့သည့် # စက္ကန့်", 0, -1}, {"# စက္ကန့်အတွင်း", 0, 1}, {"ပြီးခဲ့သည့် ## စက္ကန့်", 0, -1}, {"## စက္ကန့်အတွင်း", 0, 1}, {"ပြီးခဲ့သည့် 1 မိနစ်", 1, -1}, {"1 မိနစ်အတွင်း", 1, 1}, {"ပြီးခဲ့သည့် 2 မိနစ်", 1, -2}, {"2 မိနစ်အတွင်း", 1, 2}, {"ပြီးခဲ့သည့် # မိနစ်", 1, -1}, {"# မိနစ်အတွင်း", 1, 1}, {"ပြီးခဲ့သည့် ## မိနစ်", 1, -1}, {"## မိနစ်အတွင်း", 1, 1}, {"ပြီးခဲ့သည့် 1 နာရီ", 2, -1}, {"1 နာရီအတွင်း", 2, 1}, {"ပြီးခဲ့သည့် 2 နာရီ", 2, -2}, {"2 နာရီအတွင်း", 2, 2}, {"ပြီးခဲ့သည့် # နာရီ", 2, -1}, {"# နာရီအတွင်း", 2, 1}, {"ပြီးခဲ့သည့် ## နာရီ", 2, -1}, {"## နာရီအတွင်း", 2, 1}, {"ပြီးခဲ့သည့် 1 ရက်", 3, -1}, {"1 ရက်အတွင်း", 3, 1}, {"ပြီးခဲ့သည့် 2 ရက်", 3, -2}, {"2 ရက်အတွင်း", 3, 2}, {"ပြီးခဲ့သည့် # ရက်", 3, -1}, {"# ရက်အတွင်း", 3, 1}, {"ပြီးခဲ့သည့် ## ရက်", 3, -1}, {"## ရက်အတွင်း", 3, 1}, {"ပြီးခဲ့သည့် 1 ပတ်", 4, -1}, {"1 ပတ်အတွင်း", 4, 1}, {"ပြီးခဲ့သည့် 2 ပတ်", 4, -2}, {"2 ပတ်အတွင်း", 4, 2}, {"ပြီးခဲ့သည့် # ပတ်", 4, -1}, {"# ပတ်အတွင်း", 4, 1}, {"ပြီးခဲ့သည့် ## ပတ်", 4, -1}, {"## ပတ်အတွင်း", 4, 1}, {"ပြီးခဲ့သည့် 1 လ", 5, -1}, {"1 လအတွင်း", 5, 1}, {"ပြီးခဲ့သည့် 2 လ", 5, -2}, {"2 လအတွင်း", 5, 2}, {"ပြီးခဲ့သည့် # လ", 5, -1}, {"# လအတွင်း", 5, 1}, {"ပြီးခဲ့သည့် ## လ", 5, -1}, {"## လအတွင်း", 5, 1}, {"ပြီးခဲ့သည့် 1 နှစ်", 6, -1}, {"1 နှစ်အတွင်း", 6, 1}, {"ပြီးခဲ့သည့် 2 နှစ်", 6, -2}, {"2 နှစ်အတွင်း", 6, 2}, {"ပြီးခဲ့သည့် # နှစ်", 6, -1}, {"# နှစ်အတွင်း", 6, 1}, {"ပြီးခဲ့သည့် ## နှစ်", 6, -1}, {"## နှစ်အတွင်း", 6, 1}}},
	{"mzn",
		[]nameOf{{"ژانویه", 1}, {"فوریه", 2}, {"مارس", 3}, {"آوریل", 4}, {"مه", 5}, {"ژوئن", 6}, {"ژوئیه", 7}, {"اوت", 8}, {"سپتامبر", 9}, {"اکتبر", 10}, {"نوامبر", 11}, {"دسامبر", 12}},
		[]nameOf{{"## ژانویه #", 1}, {"## فوریه #", 2}, {"## مارس #", 3}, {"## آوریل #", 4}, {"## مه #", 5}, {"## ژوئن #", 6}, {"## ژوئیه #", 7}, {"## اوت #", 8}, {"## سپتامبر #", 9}, {"## اکتبر #", 10}, {"## نوامبر #", 11}, {"## دسامبر #", 12}},
		[]nameOf{{"Mon", 1}, {"Tue", 2}, {"Wed", 3}, {"Thu", 4}, {"Fri", 5}, {"Sat", 6}, {"Sun", 0}},
		[]amountOf{{"1 ثانیه پیش", 0, -1}, {"1 ثانیه دله", 0, 1}, {"2 ثانیه پیش", 0, -2}, {"2 ثانیه دله", 0, 2}, {"# ثانیه پیش", 0, -1}, {"# ثانیه دله", 0, 1}, {"## ثانیه پیش", 0, -1}, {"## ثانیه دله", 0, 1}, {"1 دقیقه دله", 1, 1}, {"2 دقیقه دله", 1, 2}, {"# دقیقه دله", 1, 1}, {"## دقیقه دله", 1, 1}, {"1 ساعِت پیش", 2, -1}, {"1 ساعِت دله", 2, 1}, {"2 ساعِت پیش", 2, -2}, {"2 ساعِت دله", 2, 2}, {"# ساعِت پیش", 2, -1}, {"# ساعِت دله", 2, 1}, {"## ساعِت پیش", 2, -1}, {"## ساعِت دله", 2, 1}, {"1 روز پیش", 3, -1}, {"1 روز دله", 3, 1}, {"2 روز پیش", 3, -2}, {"2 روز دله", 3, 2}, {"# روز پیش", 3, -1}, {"# روز دله", 3, 1}, {"## روز پیش", 3, -1}, {"## روز دله", 3, 1}, {"1 هفته پیش", 4, -1}, {"1 هفته دله", 4, 1}, {"2 هفته پیش", 4, -2}, {"2 هفته دله", 4, 2}, {"# هفته پیش", 4, -1}, {"# هفته دله", 4, 1}, {"## هفته پیش", 4, -1}, {"## هفته دله", 4, 1}, {"1 ماه پیش", 5, -1}, {"1 ماه دله", 5, 1}, {"2 ماه پیش", 5, -2}, {"2 ماه دله", 5, 2}, {"# ماه پیش", 5, -1}, {"# ماه دله", 5, 1}, {"## ماه پیش", 5, -1}, {"## ماه دله", 5, 1}, {"1 سال پیش", 6, -1}, {"1 سال دله", 6, 1}, {"2 سال پیش", 6, -2}, {"2 سال دله", 6, 2}, {"# سال پیش", 6, -1}, {"# سال دله", 6, 1}, {"## سال پیش", 6, -1}, {"## سال دله", 6, 1}}},
	{"naq",
		[]nameOf{{"ǃKhanni", 1}, {"Jan", 1}, {"ǃKhanǀgôab", 2}, {"Feb", 2}, {"ǀKhuuǁkhâb", 3}, {"Mar", 3}, {"ǃHôaǂkhaib", 4}, {"Apr", 4}, {"ǃKhaitsâb", 5}, {"May", 5}, {"Gamaǀaeb", 6}, {"Jun", 6}, {"ǂKhoesaob", 7}, {"Jul", 7}, {"Aoǁkhuumûǁkhâb", 8}, {"Aug", 8}, {"Taraǀkhuumûǁkhâb", 9}, {"Sep", 9}, {"ǂNûǁnâiseb", 10}, {"Oct", 10}, {"ǀHooǂgaeb", 11}, {"Nov", 11}, {"Hôasoreǁkhâb", 12}, {"Dec", 12}},
		[]nameOf{{"# ǃKhanni ##", 1}, {"# ǃKhanǀgôab ##", 2}, {"# ǀKhuuǁkhâb ##", 3}, {"# ǃHôaǂkhaib ##", 4}, {"# ǃKhaitsâb ##", 5}, {"# Gamaǀaeb ##", 6}, {"# ǂKhoesaob ##", 7}, {"# Aoǁkhuumûǁkhâb ##", 8}, {"# Taraǀkhuumûǁkhâb ##", 9}, {"# ǂNûǁnâiseb ##", 10}, {"# ǀHooǂgaeb ##", 11}, {"# Hôasoreǁkhâb ##", 12}},
		[]nameOf{{"Mantaxtsees", 1}, {"Denstaxtsees", 2}, {"Wunstaxtsees", 3}, {"Dondertaxtsees", 4}, {"Fraitaxtsees", 5}, {"Satertaxtsees", 6}, {"Sontaxtsees", 0}, {"Ma", 1}, {"De", 2}, {"Wu", 3}, {"Do", 4}, {"Fr", 5}, {"Sat", 6}, {"Son", 0}},
		[]amountOf{}},
	{"nb",
		[]nameOf{{"januar", 1}, {"jan.", 1}, {"februar", 2}, {"feb.", 2}, {"mars", 3}, {"april", 4}, {"apr.", 4}, {"mai", 5}, {"juni", 6}, {"juli", 7}, {"august", 8}, {"aug.", 8}, {"september", 9}, {"sep.", 9}, {"oktober", 10}, {"okt.", 10}, {"november", 11}, {"nov.", 11}, {"desember", 12}, {"des.", 12}},
		[]nameOf{{"#. januar ##", 1}, {"#. februar ##", 2}, {"#. mars ##", 3}, {"#. april ##", 4}, {"#. mai ##", 5}, {"#. juni ##", 6}, {"#. juli ##", 7}, {"#. august ##", 8}, {"#. september ##", 9}, {"#. oktober ##", 10}, {"#. november ##", 11}, {"#. desember ##", 12}},
		[]nameOf{{"mandag", 1}, {"tirsdag", 2}, {"onsdag", 3}, {"torsdag", 4}, {"fredag", 5}, {"lørdag", 6}, {"søndag", 0}, {"man.", 1}, {"tir.", 2}, {"ons.", 3}, {"tor.", 4}, {"fre.", 5}, {"lør.", 6}, {"søn.", 0}},
		[]amountOf{{"for 1 sekund siden", 0, -1}, {"om 1 sekund", 0, 1}, {"for 2 sekunder siden", 0, -2}, {"om 2 sekunder", 0, 2}, {"for # sekunder siden", 0, -1}, {"om # sekunder", 0, 1}, {"for ## sekunder siden", 0, -1}, {"om ## sekunder", 0, 1}, {"for 1 minutt siden", 1, -1}, {"om 1 minutt", 1, 1}, {"for 2 minutter siden", 1, -2}, {"om 2 minutter", 1, 2}, {"for # minutter siden", 1, -1}, {"om # minutter", 1, 1}, {"for ## minutter siden", 1, -1}, {"om ## minutter", 1, 1}, {"for 1 time siden", 2, -1}, {"om 1 time", 2, 1}, {"for 2 timer siden", 2, -2}, {"om 2 timer", 2, 2}, {"for # timer siden", 2, -1}, {"om # timer", 2, 1}, {"for ## timer siden", 2, -1}, {"om ## timer", 2, 1}, {"for 1 døgn siden", 3, -1}, {"om 1 døgn", 3, 1}, {"for 2 døgn siden", 3, -2}, {"om 2 døgn", 3, 2}, {"for # døgn siden", 3, -1}, {"om # døgn", 3, 1}, {"for ## døgn siden", 3, -1}, {"om ## døgn", 3, 1}, {"for 1 uke siden", 4, -1}, {"om 1 uke", 4, 1}, {"for 2 uker siden", 4, -2}, {"om 2 uker", 4, 2}, {"for # uker siden", 4, -1}, {"om # uker", 4, 1}, {"for ## uker siden", 4, -1}, {"om ## uker", 4, 1}, {"for 1 måned siden", 5, -1}, {"om 1 måned", 5, 1}, {"for 2 måneder siden", 5, -2}, {"om 2 måneder", 5, 2}, {"for # måneder siden", 5, -1}, {"om # måneder", 5, 1}, {"for ## måneder siden", 5, -1}, {"om ## måneder", 5, 1}, {"for 1 år siden", 6, -1}, {"om 1 år", 6, 1}, {"for 2 år siden", 6, -2}, {"om 2 år", 6, 2}, {"for # år siden", 6, -1}, {"om # år", 6, 1}, {"for ## år siden", 6, -1}, {"om ## år", 6, 1}}},
	{"nd",
		[]nameOf{{"Zibandlela", 1}, {"Zib", 1}, {"Nhlolanja", 2}, {"Nhlo", 2}, {"Mbimbitho", 3}, {"Mbi", 3}, {"Mabasa", 4}, {"Mab", 4}, {"Nkwenkwezi", 5}, {"Nkw", 5}, {"Nhlangula", 6}, {"Nhla", 6}, {"Ntulikazi", 7}, {"Ntu", 7}, {"Ncwabakazi", 8}, {"Ncw", 8}, {"Mpandula", 9}, {"Mpan", 9}, {"Mfumfu", 10}, {"Mfu", 10}, {"Lwezi", 11}, {"Lwe", 11}, {"Mpalakazi", 12}, {"Mpal", 12}},
		[]nameOf{{"# Zibandlela ##", 1}, {"# Nhlolanja ##", 2}, {"# Mbimbitho ##", 3}, {"# Mabasa ##", 4}, {"# Nkwenkwezi ##", 5}, {"# Nhlangula ##", 6}, {"# Ntulikazi ##", 7}, {"# Ncwabakazi ##", 8}, {"# Mpandula ##", 9}, {"# Mfumfu ##", 10}, {"# Lwezi ##", 11}, {"# Mpalakazi ##", 12}},
		[]nameOf{{"Mvulo", 1}, {"Sibili", 2}, {"Sithathu", 3}, {"Sine", 4}, {"Sihlanu", 5}, {"Mgqibelo", 6}, {"Sonto", 0}, {"Mvu", 1}, {"Sib", 2}, {"Sit", 3}, {"Sin", 4}, {"Sih", 5}, {"Mgq", 6}, {"Son", 0}},
		[]amountOf{}},
	{"ne",
		[]nameOf{{"जनवरी", 1}, {"फेब्रुअरी", 2}, {"मार्च", 3}, {"अप्रिल", 4}, {"मे", 5}, {"जुन", 6}, {"जुलाई", 7}, {"अगस्ट", 8}, {"सेप्टेम्बर", 9}, {"अक्टोबर", 10}, {"नोभेम्बर", 11}, {"डिसेम्बर", 12}},
		[]nameOf{{"## जनवरी #", 1}, {"## फेब्रुअरी #", 2}, {"## मार्च #", 3}, {"## अप्रिल #", 4}, {"## मे #", 5}, {"## जुन #", 6}, {"## जुलाई #", 7}, {"## अगस्ट #", 8}, {"## सेप्टेम्बर #", 9}, {"## अक्टोबर #", 10}, {"## नोभेम्बर #", 11}, {"## डिसेम्बर #", 12}},
		[]nameOf{{"सोमबार", 1}, {"मङ्गलबार", 2}, {"बुधबार", 3}, {"बिहिबार", 4}, {"शुक्रबार", 5}, {"शनिबार", 6}, {"आइतबार", 0}, {"सोम", 1}, {"मङ्गल", 2}, {"बुध", 3}, {"बिहि", 4}, {"शुक्र", 5}, {"शनि", 6}, {"आइत", 0}},
		[]amountOf{{"1 मिनेट पहिले", 1, -1}, {"1 मिनेटमा", 1, 1}, {"2 मिनेट पहिले", 1, -2}, {"2 मिनेटमा", 1, 2}, {"# मिनेट पहिले", 1, -1}, {"# मिनेटमा", 1, 1}, {"## मिनेट पहिले", 1, -1}, {"## मिनेटमा", 1, 1}, {"1 घण्टा पहिले", 2, -1}, {"1 घण्टामा", 2, 1}, {"2 घण्टा पहिले", 2, -2}, {"2 घण्टामा", 2, 2}, {"# घण्टा पहिले", 2, -1}, {"# घण्टामा", 2, 1}, {"## घण्टा पहिले", 2, -1}, {"## घण्टामा", 2, 1}, {"1 दिन पहिले", 3, -1}, {"1 दिनमा", 3, 1}, {"2 दिन पहिले", 3, -2}, {"2 दिनमा", 3, 2}, {"# दिन पहिले", 3, -1}, {"# दिनमा", 3, 1}, {"## दिन पहिले", 3, -1}, {"## दिनमा", 3, 1}, {"1 हप्ता पहिले", 4, -1}, {"1 हप्तामा", 4, 1}, {"2 हप्ता पहिले", 4, -2}, {"2 हप्तामा", 4, 2}, {"# हप्ता पहिले", 4, -1}, {"# हप्तामा", 4, 1}, {"## हप्ता पहिले", 4, -1}, {"## हप्तामा", 4, 1}, {"1 महिना पहिले", 5, -1}, {"1 महिनामा", 5, 1}, {"2 महिना पहिले", 5, -2}, {"2 महिनामा", 5, 2}, {"# महिना पहिले", 5, -1}, {"# महिनामा", 5, 1}, {"## महिना पहिले", 5, -1}, {"## महिनामा", 5, 1}, {"1 वर्ष अघि", 6, -1}, {"1 वर्षमा", 6, 1}, {"2 वर्ष अघि", 6, -2}, {"2 वर्षमा", 6, 2}, {"# वर्ष अघि", 6, -1}, {"# वर्षमा", 6, 1}, {"## वर्ष अघि", 6, -1}, {"## वर्षमा", 6, 1}}},
	{"nl",
		[]nameOf{{"januari", 1}, {"jan", 1}, {"februari", 2}, {"feb", 2}, {"maart", 3}, {"mrt", 3}, {"april", 4}, {"apr", 4}, {"mei", 5}, {"juni", 6}, {"jun", 6}, {"juli", 7}, {"jul", 7}, {"augustus", 8}, {"aug", 8}, {"september", 9}, {"sep", 9}, {"oktober", 10}, {"okt", 10}, {"november", 11}, {"nov", 11}, {"december", 12}, {"dec", 12}},
		[]nameOf{{"# januari ##", 1}, {"# februari ##", 2}, {"# maart ##", 3}, {"# april ##", 4}, {"# mei ##", 5}, {"# juni ##", 6}, {"# juli ##", 7}, {"# augustus ##", 8}, {"# september ##", 9}, {"# oktober ##", 10}, {"# november ##", 11}, {"# december ##", 12}},
		[]nameOf{{"maandag", 1}, {"dinsdag", 2}, {"woensdag", 3}, {"donderdag", 4}, {"vrijdag", 5}, {"zaterdag", 6}, {"zondag", 0}, {"ma", 1}, {"di", 2}, {"wo", 3}, {"do", 4}, {"vr", 5}, {"za", 6}, {"zo", 0}},
		[]amountOf{{"1 seconde geleden", 0, -1}, {"over 1 seconde", 0, 1}, {"2 seconden geleden", 0, -2}, {"over 2 seconden", 0, 2}, {"# seconden geleden", 0, -1}, {"over # seconden", 0, 1}, {"## seconden geleden", 0, -1}, {"over ## seconden", 0, 1}, {"1 minuut geleden", 1, -1}, {"over 1 minuut", 1, 1}, {"2 minuten geleden", 1, -2}, {"over 2 minuten", 1, 2}, {"# minuten geleden", 1, -1}, {"over # minuten", 1, 1}, {"## minuten geleden", 1, -1}, {"over ## minuten", 1, 1}, {"1 uur geleden", 2, -1}, {"over 1 uur", 2, 1}, {"2 uur geleden", 2, -2}, {"over 2 uur", 2, 2}, {"# uur geleden", 2, -1}, {"over # uur", 2, 1}, {"## uur geleden", 2, -1}, {"over ## uur", 2, 1}, {"1 dag geleden", 3, -1}, {"over 1 dag", 3, 1}, {"2 dagen geleden", 3, -2}, {"over 2 dagen", 3, 2}, {"# dagen geleden", 3, -1}, {"over # dagen", 3, 1}, {"## dagen geleden", 3, -1}, {"over ## dagen", 3, 1}, {"1 week geleden", 4, -1}, {"over 1 week", 4, 1}, {"2 weken geleden", 4, -2}, {"over 2 weken", 4, 2}, {"# weken geleden", 4, -1}, {"over # weken", 4, 1}, {"## weken geleden", 4, -1}, {"over ## weken", 4, 1}, {"1 maand geleden", 5, -1}, {"over 1 maand", 5, 1}, {"2 maanden geleden", 5, -2}, {"over 2 maanden", 5, 2}, {"# maanden geleden", 5, -1}, {"over # maanden", 5, 1}, {"## maanden geleden", 5, -1}, {"over ## maanden", 5, 1}, {"1 jaar geleden", 6, -1}, {"over 1 jaar", 6, 1}, {"2 jaar geleden", 6, -2}, {"over 2 jaar", 6, 2}, {"# jaar geleden", 6, -1}, {"over # jaar", 6, 1}, {"## jaar geleden", 6, -1}, {"over ## jaar", 6, 1}}},
	{"nmg",
		[]nameOf{{"ngwɛn matáhra", 1}, {"ng1", 1}, {"ngwɛn ńmba", 2}, {"ng2", 2}, {"ngwɛn ńlal", 3}, {"ng3", 3}, {"ngwɛn ńna", 4}, {"ng4", 4}, {"ngwɛn ńtan", 5}, {"ng5", 5}, {"ngwɛn ńtuó", 6}, {"ng6", 6}, {"ngwɛn hɛmbuɛrí", 7}, {"ng7", 7}, {"ngwɛn lɔmbi", 8}, {"ng8", 8}, {"ngwɛn rɛbvuâ", 9}, {"ng9", 9}, {"ngwɛn wum", 10}, {"ng10", 10}, {"ngwɛn wum navǔr", 11}, {"ng11", 11}, {"krísimin", 12}, {"kris", 12}},
		[]nameOf{{"# ngwɛn matáhra ##", 1}, {"# ngwɛn ńmba ##", 2}, {"# ngwɛn ńlal ##", 3}, {"# ngwɛn ńna ##", 4}, {"# ngwɛn ńtan ##", 5}, {"# ngwɛn ńtuó ##", 6}, {"# ngwɛn hɛmbuɛrí ##", 7}, {"# ngwɛn lɔmbi ##", 8}, {"# ngwɛn rɛbvuâ ##", 9}, {"# ngwɛn wum ##", 10}, {"# ngwɛn wum navǔr ##", 11}, {"# krísimin ##", 12}},
		[]nameOf{{"mɔ́ndɔ", 1}, {"sɔ́ndɔ mafú mába", 2}, {"sɔ́ndɔ mafú málal", 3}, {"sɔ́ndɔ mafú mána", 4}, {"mabágá má sukul", 5}, {"sásadi", 6}, {"sɔ́ndɔ", 0}, {"mɔ́n", 1}, {"smb", 2}, {"sml", 3}, {"smn", 4}, {"mbs", 5}, {"sas", 6}, {"sɔ́n", 0}},
		[]amountOf{}},
	{"nn",
		[]nameOf{{"januar", 1}, {"jan.", 1}, {"februar", 2}, {"feb.", 2}, {"mars", 3}, {"april", 4}, {"apr.", 4}, {"mai", 5}, {"juni", 6}, {"juli", 7}, {"august", 8}, {"aug.", 8}, {"september", 9}, {"sep.", 9}, {"oktober", 10}, {"okt.", 10}, {"november", 11}, {"nov.", 11}, {"desember", 12}, {"des.", 12}},
		[]nameOf{{"#. januar ##", 1}, {"#. februar ##", 2}, {"#. mars ##", 3}, {"#. april ##", 4}, {"#. mai ##", 5}, {"#. juni ##", 6}, {"#. juli ##", 7}, {"#. august ##", 8}, {"#. september ##", 9}, {"#. oktober ##", 10}, {"#. november ##", 11}, {"#. desember ##", 12}},
		[]nameOf{{"måndag", 1}, {"tysdag", 2}, {"onsdag", 3}, {"torsdag", 4}, {"fredag", 5}, {"laurdag", 6}, {"søndag", 0}, {"mån", 1}, {"tys", 2}, {"ons", 3}, {"tor", 4}, {"fre", 5}, {"lau", 6}, {"søn", 0}},
		[]amountOf{{"om 1 sekund", 0, 1}, {"om 2\u00a0sekund", 0, 2}, {"om #\u00a0sekund", 0, 1}, {"om ##\u00a0sekund", 0, 1}, {"om 1 minutt", 1, 1}, {"om 2 minutt", 1, 2}, {"om # minutt", 1, 1}, {"om ## minutt", 1, 1}, {"om 1 time", 2, 1}, {"om 1 døgn", 3, 1}, {"om 2 døgn", 3, 2}, {"om # døgn", 3, 1}, {"om ## døgn", 3, 1}, {"om 1 år", 6, 1}, {"om 2 år", 6, 2}, {"om # år", 6, 1}, {"om ## år", 6, 1}}},
	{"nnh",
		[]nameOf{{"saŋ tsetsɛ̀ɛ lùm", 1}, {"saŋ kàg ngwóŋ", 2}, {"saŋ lepyè shúm", 3}, {"saŋ cÿó", 4}, {"saŋ tsɛ̀ɛ cÿó", 5}, {"saŋ njÿoláʼ", 6}, {"saŋ tyɛ̀b tyɛ̀b mbʉ̀ŋ", 7}, {"saŋ mbʉ̀ŋ", 8}, {"saŋ ngwɔ̀ʼ mbÿɛ", 9}, {"saŋ tàŋa tsetsáʼ", 10}, {"saŋ mejwoŋó", 11}, {"saŋ lùm", 12}},
		[]nameOf{},
		[]nameOf{{"mvfò lyɛ̌ʼ", 1}, {"mbɔ́ɔntè mvfò lyɛ̌ʼ", 2}, {"tsètsɛ̀ɛ lyɛ̌ʼ", 3}, {"mbɔ́ɔntè tsetsɛ̀ɛ lyɛ̌ʼ", 4}, {"mvfò màga lyɛ̌ʼ", 5}, {"màga lyɛ̌ʼ", 6}, {"lyɛʼɛ́ sẅíŋtè", 0}},
		[]amountOf{}},
	{"nus",
		[]nameOf{{"Tiop thar pɛt", 1}, {"Tiop", 1}, {"Pɛt", 2}, {"Duɔ̱ɔ̱ŋ", 3}, {"Duɔ̱ɔ̱", 3}, {"Guak", 4}, {"Duät", 5}, {"Duä", 5}, {"Kornyoot", 6}, {"Kor", 6}, {"Pay yie̱tni", 7}, {"Pay", 7}, {"Tho̱o̱r", 8}, {"Thoo", 8}, {"Tɛɛr", 9}, {"Tɛɛ", 9}, {"Laath", 10}, {"Laa", 10}, {"Kur", 11}, {"Tio̱p in di̱i̱t", 12}, {"Tid", 12}},
		[]nameOf{{"# Tiop thar pɛt ##", 1}, {"# Pɛt ##", 2}, {"# Duɔ̱ɔ̱ŋ ##", 3}, {"# Guak ##", 4}, {"# Duät ##", 5}, {"# Kornyoot ##", 6}, {"# Pay yie̱tni ##", 7}, {"# Tho̱o̱r ##", 8}, {"# Tɛɛr ##", 9}, {"# Laath ##", 10}, {"# Kur ##", 11}, {"# Tio̱p in di̱i̱t ##", 12}},
		[]nameOf{{"Jiec la̱t", 1}, {"Rɛw lätni", 2}, {"Diɔ̱k lätni", 3}, {"Ŋuaan lätni", 4}, {"Dhieec lätni", 5}, {"Bäkɛl lätni", 6}, {"Cäŋ kuɔth", 0}, {"Jiec", 1}, {"Rɛw", 2}, {"Diɔ̱k", 3}, {"Ŋuaan", 4}, {"Dhieec", 5}, {"Bäkɛl", 6}, {"Cäŋ", 0}},
		[]amountOf{}},
	{"nyn",
		[]nameOf{{"Okwokubanza", 1}, {"KBZ", 1}, {"Okwakabiri", 2}, {"KBR", 2}, {"Okwakashatu", 3}, {"KST", 3}, {"Okwakana", 4}, {"KKN", 4}, {"Okwakataana", 5}, {"KTN", 5}, {"Okwamukaaga", 6}, {"KMK", 6}, {"Okwamushanju", 7}, {"KMS", 7}, {"Okwamunaana", 8}, {"KMN", 8}, {"Okwamwenda", 9}, {"KMW", 9}, {"Okwaikumi", 10}, {"KKM", 10}, {"Okwaikumi na kumwe", 11}, {"KNK", 11}, {"Okwaikumi na ibiri", 12}, {"KNB", 12}},
		[]nameOf{{"# Okwokubanza ##", 1}, {"# Okwakabiri ##", 2}, {"# Okwakashatu ##", 3}, {"# Okwakana ##", 4}, {"# Okwakataana ##", 5}, {"# Okwamukaaga ##", 6}, {"# Okwamushanju ##", 7}, {"# Okwamunaana ##", 8}, {"# Okwamwenda ##", 9}, {"# Okwaikumi ##", 10}, {"# Okwaikumi na kumwe ##", 11}, {"# Okwaikumi na ibiri ##", 12}},
		[]nameOf{{"Orwokubanza", 1}, {"Orwakabiri", 2}, {"Orwakashatu", 3}, {"Orwakana", 4}, {"Orwakataano", 5}, {"Orwamukaaga", 6}, {"Sande", 0}, {"ORK", 1}, {"OKB", 2}, {"OKS", 3}, {"OKN", 4}, {"OKT", 5}, {"OMK", 6}, {"SAN", 0}},
		[]amountOf{}},
	{"om",
		[]nameOf{{"Amajjii", 1}, {"Ama", 1}, {"Guraandhala", 2}, {"Gur", 2}, {"Elb", 4}, {"Cam", 5}, {"Waxabajjii", 6}, {"Wax", 6}, {"Ado", 7}, {"Hagayya", 8}, {"Hag", 8}, {"Ful", 9}, {"Onk", 10}, {"Sadaasa", 11}, {"Mud", 12}},
		[]nameOf{{"Amajjii #, ##", 1}, {"Guraandhala #, ##", 2}, {"Waxabajjii #, ##", 6}, {"Hagayya #, ##", 8}, {"Sadaasa #, ##", 11}},
		[]nameOf{{"Wiixata", 1}, {"Roobii", 3}, {"Jimaata", 5}, {"Sanbata", 6}, {"Dilbata", 0}, {"Wix", 1}, {"Rob", 3}, {"Kam", 4}, {"Jim", 5}, {"San", 6}, {"Dil", 0}},
		[]amountOf{}},
	{"or",
		[]nameOf{{"ଜାନୁଆରୀ", 1}, {"ଫେବୃଆରୀ", 2}, {"ମାର୍ଚ୍ଚ", 3}, {"ଅପ୍ରେଲ", 4}, {"ମଇ", 5}, {"ଜୁନ", 6}, {"ଜୁଲାଇ", 7}, {"ଅଗଷ୍ଟ", 8}, {"ସେପ୍ଟେମ୍ବର", 9}, {"ଅକ୍ଟୋବର", 10}, {"ନଭେମ୍ବର", 11}, {"ଡିସେମ୍ବର", 12}},
		[]nameOf{{"ଜାନୁଆରୀ #, ##", 1}, {"ଫେବୃଆରୀ #, ##", 2}, {"ମାର୍ଚ୍ଚ #, ##", 3}, {"ଅପ୍ରେଲ #, ##", 4}, {"ମଇ #, ##", 5}, {"ଜୁନ #, ##", 6}, {"ଜୁଲାଇ #, ##", 7}, {"ଅଗଷ୍ଟ #, ##", 8}, {"ସେପ୍ଟେମ୍ବର #, ##", 9}, {"ଅକ୍ଟୋବର #, ##", 10}, {"ନଭେମ୍ବର #, ##", 11}, {"ଡିସେମ୍ବର #, ##", 12}},
		[]nameOf{{"ସୋମବାର", 1}, {"ମଙ୍ଗଳବାର", 2}, {"ବୁଧବାର", 3}, {"ଗୁରୁବାର", 4}, {"ଶୁକ୍ରବାର", 5}, {"ଶନିବାର", 6}, {"ରବିବାର", 0}, {"ସୋମ", 1}, {"ମଙ୍ଗଳ", 2}, {"ବୁଧ", 3}, {"ଗୁରୁ", 4}, {"ଶୁକ୍ର", 5}, {"ଶନି", 6}, {"ରବି", 0}},
		[]amountOf{}},
	{"os",
		[]nameOf{{"январы", 1}, {"Январь", 1}, {"янв.", 1}, {"февралы", 2}, {"Февраль", 2}, {"фев.", 2}, {"мартъийы", 3}, {"Мартъи", 3}, {"мар.", 3}, {"апрелы", 4}, {"Апрель", 4}, {"апр.", 4}, {"майы", 5}, {"Май", 5}, {"июны", 6}, {"Июнь", 6}, {"июлы", 7}, {"Июль", 7}, {"августы", 8}, {"Август", 8}, {"авг.", 8}, {"сентябры", 9}, {"Сентябрь", 9}, {"сен.", 9}, {"октябры", 10}, {"Октябрь", 10}, {"окт.", 10}, {"ноябры", 11}, {"Ноябрь", 11}, {"ноя.", 11}, {"декабры", 12}, {"Декабрь", 12}, {"дек.", 12}},
		[]nameOf{{"# январы, ## аз", 1}, {"# февралы, ## аз", 2}, {"# мартъийы, ## аз", 3}, {"# апрелы, ## аз", 4}, {"# майы, ## аз", 5}, {"# июны, ## аз", 6}, {"# июлы, ## аз", 7}, {"# августы, ## аз", 8}, {"# сентябры, ## аз", 9}, {"# октябры, ## аз", 10}, {"# ноябры, ## аз", 11}, {"# декабры, ## аз", 12}},
		[]nameOf{{"Къуырисӕр", 1}, {"Дыццӕг", 2}, {"Ӕртыццӕг", 3}, {"Цыппӕрӕм", 4}, {"Майрӕмбон", 5}, {"Сабат", 6}, {"Хуыцаубон", 0}, {"Крс", 1}, {"Дцг", 2}, {"Ӕрт", 3}, {"Цпр", 4}, {"Мрб", 5}, {"Сбт", 6}, {"Хцб", 0}},
		[]amountOf{{"1 сахаты размӕ", 2, -1}, {"1 сахаты фӕстӕ", 2, 1}, {"2 сахаты размӕ", 2, -2}, {"2 сахаты фӕстӕ", 2, 2}, {"# сахаты размӕ", 2, -1}, {"# сахаты фӕстӕ", 2, 1}, {"## сахаты размӕ", 2, -1}, {"## сахаты фӕстӕ", 2, 1}, {"1 бон раздӕр", 3, -1}, {"1 боны фӕстӕ", 3, 1}, {"2 боны размӕ", 3, -2}, {"2 боны фӕстӕ", 3, 2}, {"# боны размӕ", 3, -1}, {"# боны фӕстӕ", 3, 1}, {"## боны размӕ", 3, -1}, {"## боны фӕстӕ", 3, 1}}},
	{"pa",
		[]nameOf{{"ਜਨਵਰੀ", 1}, {"ਜਨ", 1}, {"ਫ਼ਰਵਰੀ", 2}, {"ਫ਼ਰ", 2}, {"ਮਾਰਚ", 3}, {"ਅਪ੍ਰੈਲ", 4}, {"ਅਪ੍ਰੈ", 4}, {"ਮਈ", 5}, {"ਜੂਨ", 6}, {"ਜੁਲਾਈ", 7}, {"ਜੁਲਾ", 7}, {"ਅਗਸਤ", 8}, {"ਅਗ", 8}, {"ਸਤੰਬਰ", 9}, {"ਸਤੰ", 9}, {"ਅਕਤੂਬਰ", 10}, {"ਅਕਤੂ", 10}, {"ਨਵੰਬਰ", 11}, {"ਨਵੰ", 11}, {"ਦਸੰਬਰ", 12}, {"ਦਸੰ", 12}},
		[]nameOf{{"# ਜਨਵਰੀ ##", 1}, {"# ਫ਼ਰਵਰੀ ##", 2}, {"# ਮਾਰਚ ##", 3}, {"# ਅਪ੍ਰੈਲ ##", 4}, {"# ਮਈ ##", 5}, {"# ਜੂਨ ##", 6}, {"# ਜੁਲਾਈ ##", 7}, {"# ਅਗਸਤ ##", 8}, {"# ਸਤੰਬਰ ##", 9}, {"# ਅਕਤੂਬਰ ##", 10}, {"# ਨਵੰਬਰ ##", 11}, {"# ਦਸੰਬਰ ##", 12}},
		[]nameOf{{"ਸੋਮਵਾਰ", 1}, {"ਮੰਗਲਵਾਰ", 2}, {"ਬੁੱਧਵਾਰ", 3}, {"ਵੀਰਵਾਰ", 4}, {"ਸ਼ੁੱਕਰਵਾਰ", 5}, {"ਐਤਵਾਰ", 0}, {"ਸੋਮ", 1}, {"ਮੰਗਲ", 2}, {"ਬੁੱਧ", 3}, {"ਵੀਰ", 4}, {"ਸ਼ੁੱਕਰ", 5}, {"ਐਤ", 0}},
		[]amountOf{{"1 ਸਕਿੰਟ ਪਹਿਲਾਂ", 0, -1}, {"1 ਸਕਿੰਟ ਵਿੱਚ", 0, 1}, {"2 ਸਕਿੰਟ ਪਹਿਲਾਂ", 0, -2}, {"2 ਸਕਿੰਟਾਂ ਵਿੱਚ", 0, 2}, {"# ਸਕਿੰਟ ਪਹਿਲਾਂ", 0, -1}, {"# ਸਕਿੰਟਾਂ ਵਿੱਚ", 0, 1}, {"## ਸਕਿੰਟ ਪਹਿਲਾਂ", 0, -1}, {"## ਸਕਿੰਟਾਂ ਵਿੱਚ", 0, 1}, {"1 ਮਿੰਟ ਪਹਿਲਾਂ", 1, -1}, {"1 ਮਿੰਟ ਵਿੱਚ", 1, 1}, {"2 ਮਿੰਟ ਪਹਿਲਾਂ", 1, -2}, {"2 ਮਿੰਟਾਂ ਵਿੱਚ", 1, 2}, {"# ਮਿੰਟ ਪਹਿਲਾਂ", 1, -1}, {"# ਮਿੰਟਾਂ ਵਿੱਚ", 1, 1}, {"## ਮਿੰਟ ਪਹਿਲਾਂ", 1, -1}, {"## ਮਿੰਟਾਂ ਵਿੱਚ", 1, 1}, {"1 ਘੰਟਾ ਪਹਿਲਾਂ", 2, -1}, {"1 ਘੰਟੇ ਵਿੱਚ", 2, 1}, {"2 ਘੰਟੇ ਪਹਿਲਾਂ", 2, -2}, {"2 ਘੰਟਿਆਂ ਵਿੱਚ", 2, 2}, {"# ਘੰਟੇ ਪਹਿਲਾਂ", 2, -1}, {"# ਘੰਟਿਆਂ ਵਿੱਚ", 2, 1}, {"## ਘੰਟੇ ਪਹਿਲਾਂ", 2, -1}, {"## ਘੰਟਿਆਂ ਵਿੱਚ", 2, 1}, {"1 ਦਿਨ ਪਹਿਲਾਂ", 3, -1}, {"1 ਦਿਨ ਵਿੱਚ", 3, 1}, {"2 ਦਿਨ ਪਹਿਲਾਂ", 3, -2}, {"2 ਦਿਨਾਂ ਵਿੱਚ", 3, 2}, {"# ਦਿਨ ਪਹਿਲਾਂ", 3, -1}, {"# ਦਿਨਾਂ ਵਿੱਚ", 3, 1}, {"## ਦਿਨ ਪਹਿਲਾਂ", 3, -1}, {"## ਦਿਨਾਂ ਵਿੱਚ", 3, 1}, {"1 ਹਫ਼ਤਾ ਪਹਿਲਾਂ", 4, -1}, {"1 ਹਫ਼ਤੇ ਵਿੱਚ", 4, 1}, {"2 ਹਫ਼ਤੇ ਪਹਿਲਾਂ", 4, -2}, {"2 ਹਫ਼ਤਿਆਂ ਵਿੱਚ", 4, 2}, {"# ਹਫ਼ਤੇ ਪਹਿਲਾਂ", 4, -1}, {"# ਹਫ਼ਤਿਆਂ ਵਿੱਚ", 4, 1}, {"## ਹਫ਼ਤੇ ਪਹਿਲਾਂ", 4, -1}, {"## ਹਫ਼ਤਿਆਂ ਵਿੱਚ", 4, 1}, {"1 ਮਹੀਨਾ ਪਹਿਲਾਂ", 5, -1}, {"1 ਮਹੀਨੇ ਵਿੱਚ", 5, 1}, {"2 ਮਹੀਨੇ ਪਹਿਲਾਂ", 5, -2}, {"2 ਮਹੀਨਿਆਂ ਵਿੱਚ", 5, 2}, {"# ਮਹੀਨੇ ਪਹਿਲਾਂ", 5, -1}, {"# ਮਹੀਨਿਆਂ ਵਿੱਚ", 5, 1}, {"## ਮਹੀਨੇ ਪਹਿਲਾਂ", 5, -1}, {"## ਮਹੀਨਿਆਂ ਵਿੱਚ", 5, 1}, {"1 ਸਾਲ ਪਹਿਲਾਂ", 6, -1}, {"1 ਸਾਲ ਵਿੱਚ", 6, 1}, {"2 ਸਾਲ ਪਹਿਲਾਂ", 6, -2}, {"2 ਸਾਲਾਂ ਵਿੱਚ", 6, 2}, {"# ਸਾਲ ਪਹਿਲਾਂ", 6, -1}, {"# ਸਾਲਾਂ ਵਿੱਚ", 6, 1}, {"## ਸਾਲ ਪਹਿਲਾਂ", 6, -1}, {"## ਸਾਲਾਂ ਵਿੱਚ", 6, 1}}},
	{"pa-Arab",
		[]nameOf{{"جنوری", 1}, {"فروری", 2}, {"مارچ", 3}, {"اپریل", 4}, {"مئ", 5}, {"جون", 6}, {"جولائی", 7}, {"اگست", 8}, {"ستمبر", 9}, {"اکتوبر", 10}, {"نومبر", 11}, {"دسمبر", 12}},
		[]nameOf{{"# جنوری ##", 1}, {"# فروری ##", 2}, {"# مارچ ##", 3}, {"# اپریل ##", 4}, {"# مئ ##", 5}, {"# جون ##", 6}, {"# جولائی ##", 7}, {"# اگست ##", 8}, {"# ستمبر ##", 9}, {"# اکتوبر ##", 10}, {"# نومبر ##", 11}, {"# دسمبر ##", 12}},
		[]nameOf{{"پیر", 1}, {"منگل", 2}, {"جمعرات", 4}, {"جمعہ", 5}, {"ہفتہ", 6}, {"اتوار", 0}},
		[]amountOf{}},
	{"pa-Guru",
		[]nameOf{{"ਜਨਵਰੀ", 1}, {"ਜਨ", 1}, {"ਫ਼ਰਵਰੀ", 2}, {"ਫ਼ਰ", 2}, {"ਮਾਰਚ", 3}, {"ਅਪ੍ਰੈਲ", 4}, {"ਅਪ੍ਰੈ", 4}, {"ਮਈ", 5}, {"ਜੂਨ", 6}, {"ਜੁਲਾਈ", 7}, {"ਜੁਲਾ", 7}, {"ਅਗਸਤ", 8}, {"ਅਗ", 8}, {"ਸਤੰਬਰ", 9}, {"ਸਤੰ", 9}, {"ਅਕਤੂਬਰ", 10}, {"ਅਕਤੂ", 10}, {"ਨਵੰਬਰ", 11}, {"ਨਵੰ", 11}, {"ਦਸੰਬਰ", 12}, {"ਦਸੰ", 12}},
		[]nameOf{{"# ਜਨਵਰੀ ##", 1}, {"# ਫ਼ਰਵਰੀ ##", 2}, {"# ਮਾਰਚ ##", 3}, {"# ਅਪ੍ਰੈਲ ##", 4}, {"# ਮਈ ##", 5}, {"# ਜੂਨ ##", 6}, {"# ਜੁਲਾਈ ##", 7}, {"# ਅਗਸਤ ##", 8}, {"# ਸਤੰਬਰ ##", 9}, {"# ਅਕਤੂਬਰ ##", 10}, {"# ਨਵੰਬਰ ##", 11}, {"# ਦਸੰਬਰ ##", 12}},
		[]nameOf{{"ਸੋਮਵਾਰ", 1}, {"ਮੰਗਲਵਾਰ", 2}, {"ਬੁੱਧਵਾਰ", 3}, {"ਵੀਰਵਾਰ", 4}, {"ਸ਼ੁੱਕਰਵਾਰ", 5}, {"ਐਤਵਾਰ", 0}, {"ਸੋਮ", 1}, {"ਮੰਗਲ", 2}, {"ਬੁੱਧ", 3}, {"ਵੀਰ", 4}, {"ਸ਼ੁੱਕਰ", 5}, {"ਐਤ", 0}},
		[]amountOf{{"1 ਸਕਿੰਟ ਪਹਿਲਾਂ", 0, -1}, {"1 ਸਕਿੰਟ ਵਿੱਚ", 0, 1}, {"2 ਸਕਿੰਟ ਪਹਿਲਾਂ", 0, -2}, {"2 ਸਕਿੰਟਾਂ ਵਿੱਚ", 0, 2}, {"# ਸਕਿੰਟ ਪਹਿਲਾਂ", 0, -1}, {"# ਸਕਿੰਟਾਂ ਵਿੱਚ", 0, 1}, {"## ਸਕਿੰਟ ਪਹਿਲਾਂ", 0, -1}, {"## ਸਕਿੰਟਾਂ ਵਿੱਚ", 0, 1}, {"1 ਮਿੰਟ ਪਹਿਲਾਂ", 1, -1}, {"1 ਮਿੰਟ ਵਿੱਚ", 1, 1}, {"2 ਮਿੰਟ ਪਹਿਲਾਂ", 1, -2}, {"2 ਮਿੰਟਾਂ ਵਿੱਚ", 1, 2}, {"# ਮਿੰਟ ਪਹਿਲਾਂ", 1, -1}, {"# ਮਿੰਟਾਂ ਵਿੱਚ", 1, 1}, {"## ਮਿੰਟ ਪਹਿਲਾਂ", 1, -1}, {"## ਮਿੰਟਾਂ ਵਿੱਚ", 1, 1}, {"1 ਘੰਟਾ ਪਹਿਲਾਂ", 2, -1}, {"1 ਘੰਟੇ ਵਿੱਚ", 2, 1}, {"2 ਘੰਟੇ ਪਹਿਲਾਂ", 2, -2}, {"2 ਘੰਟਿਆਂ ਵਿੱਚ", 2, 2}, {"# ਘੰਟੇ ਪਹਿਲਾਂ", 2, -1}, {"# ਘੰਟਿਆਂ ਵਿੱਚ", 2, 1}, {"## ਘੰਟੇ ਪਹਿਲਾਂ", 2, -1}, {"## ਘੰਟਿਆਂ ਵਿੱਚ", 2, 1}, {"1 ਦਿਨ ਪਹਿਲਾਂ", 3, -1}, {"1 ਦਿਨ ਵਿੱਚ", 3, 1}, {"2 ਦਿਨ ਪਹਿਲਾਂ", 3, -2}, {"2 ਦਿਨਾਂ ਵਿੱਚ", 3, 2}, {"# ਦਿਨ ਪਹਿਲਾਂ", 3, -1}, {"# ਦਿਨਾਂ ਵਿੱਚ", 3, 1}, {"## ਦਿਨ ਪਹਿਲਾਂ", 3, -1}, {"## ਦਿਨਾਂ ਵਿੱਚ", 3, 1}, {"1 ਹਫ਼ਤਾ ਪਹਿਲਾਂ", 4, -1}, {"1 ਹਫ਼ਤੇ ਵਿੱਚ", 4, 1}, {"2 ਹਫ਼ਤੇ ਪਹਿਲਾਂ", 4, -2}, {"2 ਹਫ਼ਤਿਆਂ ਵਿੱਚ", 4, 2}, {"# ਹਫ਼ਤੇ ਪਹਿਲਾਂ", 4, -1}, {"# ਹਫ਼ਤਿਆਂ ਵਿੱਚ", 4, 1}, {"## ਹਫ਼ਤੇ ਪਹਿਲਾਂ", 4, -1}, {"## ਹਫ਼ਤਿਆਂ ਵਿੱਚ", 4, 1}, {"1 ਮਹੀਨਾ ਪਹਿਲਾਂ", 5, -1}, {"1 ਮਹੀਨੇ ਵਿੱਚ", 5, 1}, {"2 ਮਹੀਨੇ ਪਹਿਲਾਂ", 5, -2}, {"2 ਮਹੀਨਿਆਂ ਵਿੱਚ", 5, 2}, {"# ਮਹੀਨੇ ਪਹਿਲਾਂ", 5, -1}, {"# ਮਹੀਨਿਆਂ ਵਿੱਚ", 5, 1}, {"## ਮਹੀਨੇ ਪਹਿਲਾਂ", 5, -1}, {"## ਮਹੀਨਿਆਂ ਵਿੱਚ", 5, 1}, {"1 ਸਾਲ ਪਹਿਲਾਂ", 6, -1}, {"1 ਸਾਲ ਵਿੱਚ", 6, 1}, {"2 ਸਾਲ ਪਹਿਲਾਂ", 6, -2}, {"2 ਸਾਲਾਂ ਵਿੱਚ", 6, 2}, {"# ਸਾਲ ਪਹਿਲਾਂ", 6, -1}, {"# ਸਾਲਾਂ ਵਿੱਚ", 6, 1}, {"## ਸਾਲ ਪਹਿਲਾਂ", 6, -1}, {"## ਸਾਲਾਂ ਵਿੱਚ", 6, 1}}},
	{"pl",
		[]nameOf{{"stycznia", 1}, {"styczeń", 1}, {"sty", 1}, {"lutego", 2}, {"luty", 2}, {"lut", 2}, {"marca", 3}, {"marzec", 3}, {"mar", 3}, {"kwietnia", 4}, {"kwiecień", 4}, {"kwi", 4}, {"maja", 5}, {"maj", 5}, {"czerwca", 6}, {"czerwiec", 6}, {"cze", 6}, {"lipca", 7}, {"lipiec", 7}, {"lip", 7}, {"sierpnia", 8}, {"sierpień", 8}, {"sie", 8}, {"września", 9}, {"wrzesień", 9}, {"wrz", 9}, {"października", 10}, {"październik", 10}, {"paź", 10}, {"listopada", 11}, {"listopad", 11}, {"lis", 11}, {"grudnia", 12}, {"grudzień", 12}, {"gru", 12}},
		[]nameOf{{"# stycznia ##", 1}, {"# lutego ##", 2}, {"# marca ##", 3}, {"# kwietnia ##", 4}, {"# maja ##", 5}, {"# czerwca ##", 6}, {"# lipca ##", 7}, {"# sierpnia ##", 8}, {"# września ##", 9}, {"# października ##", 10}, {"# listopada ##", 11}, {"# grudnia ##", 12}},
		[]nameOf{{"poniedziałek", 1}, {"wtorek", 2}, {"środa", 3}, {"czwartek", 4}, {"piątek", 5}, {"sobota", 6}, {"niedziela", 0}, {"pon.", 1}, {"wt.", 2}, {"śr.", 3}, {"czw.", 4}, {"pt.", 5}, {"sob.", 6}, {"niedz.", 0}},
		[]amountOf{{"1 sekundę temu", 0, -1}, {"za 1 sekundę", 0, 1}, {"2 sekundy temu", 0, -2}, {"za 2 sekundy", 0, 2}, {"# sekund temu", 0, -1}, {"za # sekund", 0, 1}, {"## sekund temu", 0, -1}, {"za ## sekund", 0, 1}, {"1 minutę temu", 1, -1}, {"za 1 minutę", 1, 1}, {"2 minuty temu", 1, -2}, {"za 2 minuty", 1, 2}, {"# minut temu", 1, -1}, {"za # minut", 1, 1}, {"## minut temu", 1, -1}, {"za ## minut", 1, 1}, {"1 godzinę temu", 2, -1}, {"za 1 godzinę", 2, 1}, {"2 godziny temu", 2, -2}, {"za 2 godziny", 2, 2}, {"# godzin temu", 2, -1}, {"za # godzin", 2, 1}, {"## godzin temu", 2, -1}, {"za ## godzin", 2, 1}, {"1 dzień temu", 3, -1}, {"za 1 dzień", 3, 1}, {"2 dni temu", 3, -2}, {"za 2 dni", 3, 2}, {"# dni temu", 3, -1}, {"za # dni", 3, 1}, {"## dni temu", 3, -1}, {"za ## dni", 3, 1}, {"1 tydzień temu", 4, -1}, {"za 1 tydzień", 4, 1}, {"2 tygodnie temu", 4, -2}, {"za 2 tygodnie", 4, 2}, {"# tygodni temu", 4, -1}, {"za # tygodni", 4, 1}, {"## tygodni temu", 4, -1}, {"za ## tygodni", 4, 1}, {"1 miesiąc temu", 5, -1}, {"za 1 miesiąc", 5, 1}, {"2 miesiące temu", 5, -2}, {"za 2 miesiące", 5, 2}, {"# miesięcy temu", 5, -1}, {"za # miesięcy", 5, 1}, {"## miesięcy temu", 5, -1}, {"za ## miesięcy", 5, 1}, {"1 rok temu", 6, -1}, {"za 1 rok", 6, 1}, {"2 lata temu", 6, -2}, {"za 2 lata", 6, 2}, {"# lat temu", 6, -1}, {"za # lat", 6, 1}, {"## lat temu", 6, -1}, {"za ## lat", 6, 1}}},
	{"ps",
		[]nameOf{{"جنوري", 1}, {"فبروري", 2}, {"مارچ", 3}, {"اپریل", 4}, {"مۍ", 5}, {"جون", 6}, {"جولای", 7}, {"اګست", 8}, {"سپتمبر", 9}, {"اکتوبر", 10}, {"نومبر", 11}, {"دسمبر", 12}},
		[]nameOf{{"## جنوري #", 1}, {"## فبروري #", 2}, {"## مارچ #", 3}, {"## اپریل #", 4}, {"## مۍ #", 5}, {"## جون #", 6}, {"## جولای #", 7}, {"## اګست #", 8}, {"## اکتوبر #", 10}, {"## نومبر #", 11}, {"## دسمبر #", 12}},
		[]nameOf{{"جمعه", 5}},
		[]amountOf{}},
	{"pt",
		[]nameOf{{"janeiro", 1}, {"jan.", 1}, {"fevereiro", 2}, {"fev.", 2}, {"março", 3}, {"mar.", 3}, {"abril", 4}, {"abr.", 4}, {"maio", 5}, {"mai.", 5}, {"junho", 6}, {"jun.", 6}, {"julho", 7}, {"jul.", 7}, {"agosto", 8}, {"ago.", 8}, {"setembro", 9}, {"set.", 9}, {"outubro", 10}, {"out.", 10}, {"novembro", 11}, {"nov.", 11}, {"dezembro", 12}, {"dez.", 12}},
		[]nameOf{{"# de janeiro de ##", 1}, {"# de fevereiro de ##", 2}, {"# de março de ##", 3}, {"# de abril de ##", 4}, {"# de maio de ##", 5}, {"# de junho de ##", 6}, {"# de julho de ##", 7}, {"# de agosto de ##", 8}, {"# de setembro de ##", 9}, {"# de outubro de ##", 10}, {"# de novembro de ##", 11}, {"# de dezembro de ##", 12}},
		[]nameOf{{"segunda-feira", 1}, {"terça-feira", 2}, {"quarta-feira", 3}, {"quinta-feira", 4}, {"sexta-feira", 5}, {"sábado", 6}, {"domingo", 0}, {"seg.", 1}, {"ter.", 2}, {"qua.", 3}, {"qui.", 4}, {"sex.", 5}, {"sáb.", 6}, {"dom.", 0}},
		[]amountOf{{"há 1 segundo", 0, -1}, {"em 1 segundo", 0, 1}, {"há 2 segundos", 0, -2}, {"em 2 segundos", 0, 2}, {"há # segundos", 0, -1}, {"em # segundos", 0, 1}, {"há ## segundos", 0, -1}, {"em ## segundos", 0, 1}, {"há 1 minuto", 1, -1}, {"em 1 minuto", 1, 1}, {"há 2 minutos", 1, -2}, {"em 2 minutos", 1, 2}, {"há # minutos", 1, -1}, {"em # minutos", 1, 1}, {"há ## minutos", 1, -1}, {"em ## minutos", 1, 1}, {"há 1 hora", 2, -1}, {"em 1 hora", 2, 1}, {"há 2 horas", 2, -2}, {"em 2 horas", 2, 2}, {"há # horas", 2, -1}, {"em # horas", 2, 1}, {"há ## horas", 2, -1}, {"em ## horas", 2, 1}, {"há 1 dia", 3, -1}, {"em 1 dia", 3, 1}, {"há 2 dias", 3, -2}, {"em 2 dias", 3, 2}, {"há # dias", 3, -1}, {"em # dias", 3, 1}, {"há ## dias", 3, -1}, {"em ## dias", 3, 1}, {"há 1 semana", 4, -1}, {"em 1 semana", 4, 1}, {"há 2 semanas", 4, -2}, {"em 2 semanas", 4, 2}, {"há # semanas", 4, -1}, {"em # semanas", 4, 1}, {"há ## semanas", 4, -1}, {"em ## semanas", 4, 1}, {"há 1 mês", 5, -1}, {"em 1 mês", 5, 1}, {"há 2 meses", 5, -2}, {"em 2 meses", 5, 2}, {"há # meses", 5, -1}, {"em # meses", 5, 1}, {"há ## meses", 5, -1}, {"em ## meses", 5, 1}, {"há 1 ano", 6, -1}, {"em 1 ano", 6, 1}, {"há 2 anos", 6, -2}, {"em 2 anos", 6, 2}, {"há # anos", 6, -1}, {"em # anos", 6, 1}, {"há ## anos", 6, -1}, {"em ## anos", 6, 1}}},
	{"qu",
		[]nameOf{},
		[]nameOf{},
		[]nameOf{{"Lunes", 1}, {"Martes", 2}, {"Miércoles", 3}, {"Jueves", 4}, {"Viernes", 5}, {"Sábado", 6}, {"Domingo", 0}, {"Lun", 1}, {"Mié", 3}, {"Jue", 4}, {"Vie", 5}, {"Sab", 6}, {"Dom", 0}},
		[]amountOf{}},
	{"rm",
		[]nameOf{{"schaner", 1}, {"schan.", 1}, {"favrer", 2}, {"favr.", 2}, {"mars", 3}, {"avrigl", 4}, {"avr.", 4}, {"matg", 5}, {"zercladur", 6}, {"zercl.", 6}, {"fanadur", 7}, {"fan.", 7}, {"avust", 8}, {"settember", 9}, {"sett.", 9}, {"october", 10}, {"oct.", 10}, {"november", 11}, {"nov.", 11}, {"december", 12}, {"dec.", 12}},
		[]nameOf{},
		[]nameOf{{"glindesdi", 1}, {"mardi", 2}, {"mesemna", 3}, {"gievgia", 4}, {"venderdi", 5}, {"sonda", 6}, {"dumengia", 0}, {"gli", 1}, {"ma", 2}, {"me", 3}, {"gie", 4}, {"ve", 5}, {"so", 6}, {"du", 0}},
		[]amountOf{}},
	{"rn",
		[]nameOf{{"Nzero", 1}, {"Mut.", 1}, {"Ruhuhuma", 2}, {"Gas.", 2}, {"Ntwarante", 3}, {"Wer.", 3}, {"Ndamukiza", 4}, {"Mat.", 4}, {"Rusama", 5}, {"Gic.", 5}, {"Ruheshi", 6}, {"Kam.", 6}, {"Mukakaro", 7}, {"Nya.", 7}, {"Nyandagaro", 8}, {"Nyakanga", 9}, {"Nze.", 9}, {"Gitugutu", 10}, {"Ukw.", 10}, {"Munyonyo", 11}, {"Ugu.", 11}, {"Kigarama", 12}, {"Uku.", 12}},
		[]nameOf{{"# Nzero ##", 1}, {"# Ruhuhuma ##", 2}, {"# Ntwarante ##", 3}, {"# Ndamukiza ##", 4}, {"# Rusama ##", 5}, {"# Ruheshi ##", 6}, {"# Mukakaro ##", 7}, {"# Nyandagaro ##", 8}, {"# Nyakanga ##", 9}, {"# Gitugutu ##", 10}, {"# Munyonyo ##", 11}, {"# Kigarama ##", 12}},
		[]nameOf{{"Ku wa mbere", 1}, {"Ku wa kabiri", 2}, {"Ku wa gatatu", 3}, {"Ku wa kane", 4}, {"Ku wa gatanu", 5}, {"Ku wa gatandatu", 6}, {"Ku w’indwi", 0}, {"mbe.", 1}, {"kab.", 2}, {"gtu.", 3}, {"gnu.", 5}, {"gnd.", 6}, {"cu.", 0}},
		[]amountOf{}},
	{"ro",
		[]nameOf{{"ianuarie", 1}, {"ian.", 1}, {"februarie", 2}, {"feb.", 2}, {"martie", 3}, {"aprilie", 4}, {"apr.", 4}, {"mai", 5}, {"iunie", 6}, {"iun.", 6}, {"iulie", 7}, {"iul.", 7}, {"august", 8}, {"aug.", 8}, {"septembrie", 9}, {"sept.", 9}, {"octombrie", 10}, {"oct.", 10}, {"noiembrie", 11}, {"nov.", 11}, {"decembrie", 12}, {"dec.", 12}},
		[]nameOf{{"# ianuarie ##", 1}, {"# februarie ##", 2}, {"# martie ##", 3}, {"# aprilie ##", 4}, {"# mai ##", 5}, {"# iunie ##", 6}, {"# iulie ##", 7}, {"# august ##", 8}, {"# septembrie ##", 9}, {"# octombrie ##", 10}, {"# noiembrie ##", 11}, {"# decembrie ##", 12}},
		[]nameOf{{"luni", 1}, {"marți", 2}, {"miercuri", 3}, {"joi", 4}, {"vineri", 5}, {"sâmbătă", 6}, {"duminică", 0}, {"lun.", 1}, {"mie.", 3}, {"vin.", 5}, {"sâm.", 6}, {"dum.", 0}},
		[]amountOf{{"acum 1 secundă", 0, -1}, {"peste 1 secundă", 0, 1}, {"acum 2 secunde", 0, -2}, {"acum # secunde", 0, -1}, {"acum ## secunde", 0, -1}, {"acum 1 minut", 1, -1}, {"peste 1 minut", 1, 1}, {"acum 2 minute", 1, -2}, {"acum # minute", 1, -1}, {"acum ## minute", 1, -1}, {"acum 1 oră", 2, -1}, {"peste 1 oră", 2, 1}, {"acum 2 ore", 2, -2}, {"acum # ore", 2, -1}, {"acum ## ore", 2, -1}, {"acum 1 zi", 3, -1}, {"peste 1 zi", 3, 1}, {"acum 2 zile", 3, -2}, {"peste 2 zile", 3, 2}, {"acum # zile", 3, -1}, {"peste # zile", 3, 1}, {"acum ## zile", 3, -1}, {"peste ## zile", 3, 1}, {"acum 1 săptămână", 4, -1}, {"peste 1 săptămână", 4, 1}, {"acum 2 săptămâni", 4, -2}, {"acum # săptămâni", 4, -1}, {"acum ## săptămâni", 4, -1}, {"acum 1 lună", 5, -1}, {"peste 1 lună", 5, 1}, {"acum 2 luni", 5, -2}, {"peste 2 luni", 5, 2}, {"acum # luni", 5, -1}, {"peste # luni", 5, 1}, {"acum ## luni", 5, -1}, {"peste ## luni", 5, 1}, {"acum 1 an", 6, -1}, {"peste 1 an", 6, 1}, {"acum 2 ani", 6, -2}, {"peste 2 ani", 6, 2}, {"acum # ani", 6, -1}, {"peste # ani", 6, 1}, {"acum ## ani", 6, -1}, {"peste ## ani", 6, 1}}},
	{"rof",
		[]nameOf{{"Mweri wa kwanza", 1}, {"M1", 1}, {"Mweri wa kaili", 2}, {"M2", 2}, {"Mweri wa katatu", 3}, {"M3", 3}, {"Mweri wa kaana", 4}, {"M4", 4}, {"Mweri wa tanu", 5}, {"M5", 5}, {"Mweri wa sita", 6}, {"M6", 6}, {"Mweri wa saba", 7}, {"M7", 7}, {"Mweri wa nane", 8}, {"M8", 8}, {"Mweri wa tisa", 9}, {"M9", 9}, {"Mweri wa ikumi", 10}, {"M10", 10}, {"Mweri wa ikumi na moja", 11}, {"M11", 11}, {"Mweri wa ikumi na mbili", 12}, {"M12", 12}},
		[]nameOf{{"# Mweri wa kwanza ##", 1}, {"# Mweri wa kaili ##", 2}, {"# Mweri wa katatu ##", 3}, {"# Mweri wa kaana ##", 4}, {"# Mweri wa tanu ##", 5}, {"# Mweri wa sita ##", 6}, {"# Mweri wa saba ##", 7}, {"# Mweri wa nane ##", 8}, {"# Mweri wa tisa ##", 9}, {"# Mweri wa ikumi ##", 10}, {"# Mweri wa ikumi na moja ##", 11}, {"# Mweri wa ikumi na mbili ##", 12}},
		[]nameOf{{"Ijumatatu", 1}, {"Ijumanne", 2}, {"Ijumatano", 3}, {"Alhamisi", 4}, {"Ijumaa", 5}, {"Ijumamosi", 6}, {"Ijumapili", 0}, {"Ijt", 1}, {"Ijn", 2}, {"Ijtn", 3}, {"Alh", 4}, {"Iju", 5}, {"Ijm", 6}, {"Ijp", 0}},
		[]amountOf{}},
	{"ru",
		[]nameOf{{"января", 1}, {"январь", 1}, {"янв.", 1}, {"февраля", 2}, {"февраль", 2}, {"февр.", 2}, {"марта", 3}, {"март", 3}, {"мар.", 3}, {"апреля", 4}, {"апрель", 4}, {"апр.", 4}, {"мая", 5}, {"май", 5}, {"июня", 6}, {"июнь", 6}, {"июн.", 6}, {"июля", 7}, {"июль", 7}, {"июл.", 7}, {"августа", 8}, {"август", 8}, {"авг.", 8}, {"сентября", 9}, {"сентябрь", 9}, {"сент.", 9}, {"октября", 10}, {"октябрь", 10}, {"окт.", 10}, {"ноября", 11}, {"ноябрь", 11}, {"нояб.", 11}, {"декабря", 12}, {"декабрь", 12}, {"дек.", 12}},
		[]nameOf{{"# января ## г.", 1}, {"# февраля ## г.", 2}, {"# марта ## г.", 3}, {"# апреля ## г.", 4}, {"# мая ## г.", 5}, {"# июня ## г.", 6}, {"# июля ## г.", 7}, {"# августа ## г.", 8}, {"# сентября ## г.", 9}, {"# октября ## г.", 10}, {"# ноября ## г.", 11}, {"# декабря ## г.", 12}},
		[]nameOf{{"понедельник", 1}, {"вторник", 2}, {"среда", 3}, {"четверг", 4}, {"пятница", 5}, {"суббота", 6}, {"воскресенье", 0}, {"пн", 1}, {"вт", 2}, {"ср", 3}, {"чт", 4}, {"пт", 5}, {"сб", 6}, {"вс", 0}},
		[]amountOf{{"1 секунду назад", 0, -1}, {"через 1 секунду", 0, 1}, {"2 секунды назад", 0, -2}, {"через 2 секунды", 0, 2}, {"# секунд назад", 0, -1}, {"через # секунд", 0, 1}, {"## секунд назад", 0, -1}, {"через ## секунд", 0, 1}, {"1 минуту назад", 1, -1}, {"через 1 минуту", 1, 1}, {"2 минуты назад", 1, -2}, {"через 2 минуты", 1, 2}, {"# минут назад", 1, -1}, {"через # минут", 1, 1}, {"## минут назад", 1, -1}, {"через ## минут", 1, 1}, {"1 час назад", 2, -1}, {"через 1 час", 2, 1}, {"2 часа назад", 2, -2}, {"через 2 часа", 2, 2}, {"# часов назад", 2, -1}, {"через # часов", 2, 1}, {"## часов назад", 2, -1}, {"через ## часов", 2, 1}, {"1 день назад", 3, -1}, {"через 1 день", 3, 1}, {"2 дня назад", 3, -2}, {"через 2 дня", 3, 2}, {"# дней назад", 3, -1}, {"через # дней", 3, 1}, {"## дней назад", 3, -1}, {"через ## дней", 3, 1}, {"1 неделю назад", 4, -1}, {"через 1 неделю", 4, 1}, {"2 недели назад", 4, -2}, {"через 2 недели", 4, 2}, {"# недель назад", 4, -1}, {"через # недель", 4, 1}, {"## недель назад", 4, -1}, {"через ## недель", 4, 1}, {"1 месяц назад", 5, -1}, {"через 1 месяц", 5, 1}, {"2 месяца назад", 5, -2}, {"через 2 месяца", 5, 2}, {"# месяцев назад", 5, -1}, {"через # месяцев", 5, 1}, {"## месяцев назад", 5, -1}, {"через ## месяцев", 5, 1}, {"1 год назад", 6, -1}, {"через 1 год", 6, 1}, {"2 года назад", 6, -2}, {"через 2 года", 6, 2}, {"# лет назад", 6, -1}, {"через # лет", 6, 1}, {"## лет назад", 6, -1}, {"через ## лет", 6, 1}}},
	{"rw",
		[]nameOf{{"Mutarama", 1}, {"Gashyantare", 2}, {"Werurwe", 3}, {"Mata", 4}, {"Kamena", 6}, {"Nyakanga", 7}, {"Kanama", 8}, {"Ukwakira", 10}, {"Ugushyingo", 11}, {"Ukuboza", 12}},
		[]nameOf{{"## Mutarama #", 1}, {"## Gashyantare #", 2}, {"## Werurwe #", 3}, {"## Mata #", 4}, {"## Kamena #", 6}, {"## Nyakanga #", 7}, {"## Kanama #", 8}, {"## Ukwakira #", 10}, {"## Ugushyingo #", 11}, {"## Ukuboza #", 12}},
		[]nameOf{{"Kuwa mbere", 1}, {"Kuwa kabiri", 2}, {"Kuwa gatatu", 3}, {"Kuwa kane", 4}, {"Kuwa gatanu", 5}, {"Kuwa gatandatu", 6}, {"Ku cyumweru", 0}, {"Mbe.", 1}, {"Kab.", 2}, {"Gtu.", 3}, {"Kan.", 4}, {"Gnu.", 5}, {"Gnd.", 6}, {"Cyu.", 0}},
		[]amountOf{}},
	{"rwk",
		[]nameOf{{"Januari", 1}, {"Jan", 1}, {"Februari", 2}, {"Feb", 2}, {"Machi", 3}, {"Mac", 3}, {"Aprilyi", 4}, {"Apr", 4}, {"Mei", 5}, {"Junyi", 6}, {"Jun", 6}, {"Julyai", 7}, {"Jul", 7}, {"Agusti", 8}, {"Ago", 8}, {"Septemba", 9}, {"Sep", 9}, {"Oktoba", 10}, {"Okt", 10}, {"Novemba", 11}, {"Nov", 11}, {"Desemba", 12}, {"Des", 12}},
		[]nameOf{{"# Januari ##", 1}, {"# Februari ##", 2}, {"# Machi ##", 3}, {"# Aprilyi ##", 4}, {"# Mei ##", 5}, {"# Junyi ##", 6}, {"# Julyai ##", 7}, {"# Agusti ##", 8}, {"# Septemba ##", 9}, {"# Oktoba ##", 10}, {"# Novemba ##", 11}, {"# Desemba ##", 12}},
		[]nameOf{{"Jumatatuu", 1}, {"Jumanne", 2}, {"Jumatanu", 3}, {"Alhamisi", 4}, {"Ijumaa", 5}, {"Jumamosi", 6}, {"Jumapilyi", 0}, {"Jtt", 1}, {"Jnn", 2}, {"Jtn", 3}, {"Alh", 4}, {"Iju", 5}, {"Jmo", 6}, {"Jpi", 0}},
		[]amountOf{}},
	{"sah",
		[]nameOf{{"Тохсунньу", 1}, {"тохсунньу", 1}, {"Тохс", 1}, {"Олунньу", 2}, {"олунньу", 2}, {"Олун", 2}, {"Кулун тутар", 3}, {"кулун тутар", 3}, {"Клн", 3}, {"Муус устар", 4}, {"муус устар", 4}, {"Мсу", 4}, {"Ыам ыйын", 5}, {"ыам ыйа", 5}, {"Ыам", 5}, {"Бэс ыйын", 6}, {"бэс ыйа", 6}, {"Бэс", 6}, {"От ыйын", 7}, {"от ыйа", 7}, {"Отй", 7}, {"Атырдьых ыйын", 8}, {"атырдьых ыйа", 8}, {"Атр", 8}, {"Балаҕан ыйын", 9}, {"балаҕан ыйа", 9}, {"Блҕ", 9}, {"Алтынньы", 10}, {"алтынньы", 10}, {"Алт", 10}, {"Сэтинньи", 11}, {"сэтинньи", 11}, {"Сэт", 11}, {"ахсынньы", 12}, {"Ахс", 12}},
		[]nameOf{{"##, Тохсунньу #", 1}, {"##, Олунньу #", 2}, {"##, Кулун тутар #", 3}, {"##, Муус устар #", 4}, {"##, Ыам ыйын #", 5}, {"##, Бэс ыйын #", 6}, {"##, От ыйын #", 7}, {"##, Атырдьых ыйын #", 8}, {"##, Балаҕан ыйын #", 9}, {"##, Алтынньы #", 10}, {"##, Сэтинньи #", 11}, {"##, ахсынньы #", 12}},
		[]nameOf{{"бэнидиэнньик", 1}, {"оптуорунньук", 2}, {"сэрэдэ", 3}, {"чэппиэр", 4}, {"Бээтиҥсэ", 5}, {"субуота", 6}, {"баскыһыанньа", 0}, {"бн", 1}, {"оп", 2}, {"сэ", 3}, {"чп", 4}, {"бэ", 5}, {"сб", 6}, {"бс", 0}},
		[]amountOf{{"1 сөкүүндэ ынараа өттүгэр", 0, -1}, {"1 сөкүүндэннэн", 0, 1}, {"2 сөкүүндэ ынараа өттүгэр", 0, -2}, {"2 сөкүүндэннэн", 0, 2}, {"# сөкүүндэ ынараа өттүгэр", 0, -1}, {"# сөкүүндэннэн", 0, 1}, {"## сөкүүндэ ынараа өттүгэр", 0, -1}, {"## сөкүүндэннэн", 0, 1}, {"1 мүнүүтэ ынараа өттүгэр", 1, -1}, {"1 мүнүүтэннэн", 1, 1}, {"2 мүнүүтэ ынараа өттүгэр", 1, -2}, {"2 мүнүүтэннэн", 1, 2}, {"# мүнүүтэ ынараа өттүгэр", 1, -1}, {"# мүнүүтэннэн", 1, 1}, {"## мүнүүтэ ынараа өттүгэр", 1, -1}, {"## мүнүүтэннэн", 1, 1}, {"1 чаас ынараа өттүгэр", 2, -1}, {"1 чааһынан", 2, 1}, {"2 чаас ынараа өттүгэр", 2, -2}, {"2 чааһынан", 2, 2}, {"# чаас ынараа өттүгэр", 2, -1}, {"# чааһынан", 2, 1}, {"## чаас ынараа өттүгэр", 2, -1}, {"## чааһынан", 2, 1}, {"1 күн ынараа өттүгэр", 3, -1}, {"1 күнүнэн", 3, 1}, {"2 күн ынараа өттүгэр", 3, -2}, {"2 күнүнэн", 3, 2}, {"# күн ынараа өттүгэр", 3, -1}, {"# күнүнэн", 3, 1}, {"## күн ынараа өттүгэр", 3, -1}, {"## күнүнэн", 3, 1}, {"1 нэдиэлэ анараа өттүгэр", 4, -1}, {"1 нэдиэлэннэн", 4, 1}, {"2 нэдиэлэ анараа өттүгэр", 4, -2}, {"2 нэдиэлэннэн", 4, 2}, {"# нэдиэлэ анараа өттүгэр", 4, -1}, {"# нэдиэлэннэн", 4, 1}, {"## нэдиэлэ анараа өттүгэр", 4, -1}, {"## нэдиэлэннэн", 4, 1}, {"1 ый ынараа өттүгэр", 5, -1}, {"1 ыйынан", 5, 1}, {"2 ый ынараа өттүгэр", 5, -2}, {"2 ыйынан", 5, 2}, {"# ый ынараа өттүгэр", 5, -1}, {"# ыйынан", 5, 1}, {"## ый ынараа өттүгэр", 5, -1}, {"## ыйынан", 5, 1}, {"1 сыл ынараа өттүгэр", 6, -1}, {"1 сылынан", 6, 1}, {"2 сыл ынараа өттүгэр", 6, -2}, {"2 сылынан", 6, 2}, {"# сыл ынараа өттүгэр", 6, -1}, {"# сылынан", 6, 1}, {"## сыл ынараа өттүгэр", 6, -1}, {"## сылынан", 6, 1}}},
	{"saq",
		[]nameOf{{"Lapa le obo", 1}, {"Obo", 1}, {"Lapa le waare", 2}, {"Waa", 2}, {"Lapa le okuni", 3}, {"Oku", 3}, {"Lapa le ong’wan", 4}, {"Lapa le imet", 5}, {"Ime", 5}, {"Lapa le ile", 6}, {"Lapa le sapa", 7}, {"Lapa le isiet", 8}, {"Isi", 8}, {"Lapa le saal", 9}, {"Saa", 9}, {"Lapa le tomon", 10}, {"Tom", 10}, {"Lapa le tomon obo", 11}, {"Tob", 11}, {"Lapa le tomon waare", 12}, {"Tow", 12}},
		[]nameOf{{"# Lapa le obo ##", 1}, {"# Lapa le waare ##", 2}, {"# Lapa le okuni ##", 3}, {"# Lapa le ong’wan ##", 4}, {"# Lapa le imet ##", 5}, {"# Lapa le ile ##", 6}, {"# Lapa le sapa ##", 7}, {"# Lapa le isiet ##", 8}, {"# Lapa le saal ##", 9}, {"# Lapa le tomon ##", 10}, {"# Lapa le tomon obo ##", 11}, {"# Lapa le tomon waare ##", 12}},
		[]nameOf{{"Mderot ee kuni", 1}, {"Mderot ee ong’wan", 2}, {"Mderot ee inet", 3}, {"Mderot ee ile", 4}, {"Mderot ee sapa", 5}, {"Mderot ee kwe", 6}, {"Mderot ee are", 0}, {"Kun", 1}, {"Ine", 3}, {"Kwe", 6}, {"Are", 0}},
		[]amountOf{}},
	{"sbp",
		[]nameOf{{"Mupalangulwa", 1}, {"Mup", 1}, {"Mwitope", 2}, {"Mwi", 2}, {"Mushende", 3}, {"Msh", 3}, {"Munyi", 4}, {"Mun", 4}, {"Mushende Magali", 5}, {"Mag", 5}, {"Mujimbi", 6}, {"Muj", 6}, {"Mushipepo", 7}, {"Msp", 7}, {"Mupuguto", 8}, {"Mpg", 8}, {"Munyense", 9}, {"Mye", 9}, {"Mokhu", 10}, {"Mok", 10}, {"Musongandembwe", 11}, {"Mus", 11}, {"Muhaano", 12}, {"Muh", 12}},
		[]nameOf{{"# Mupalangulwa ##", 1}, {"# Mwitope ##", 2}, {"# Mushende ##", 3}, {"# Munyi ##", 4}, {"# Mushende Magali ##", 5}, {"# Mujimbi ##", 6}, {"# Mushipepo ##", 7}, {"# Mupuguto ##", 8}, {"# Munyense ##", 9}, {"# Mokhu ##", 10}, {"# Musongandembwe ##", 11}, {"# Muhaano ##", 12}},
		[]nameOf{{"Jumatatu", 1}, {"Jumanne", 2}, {"Jumatano", 3}, {"Alahamisi", 4}, {"Ijumaa", 5}, {"Jumamosi", 6}, {"Mulungu", 0}, {"Jtt", 1}, {"Jnn", 2}, {"Jtn", 3}, {"Alh", 4}, {"Iju", 5}, {"Jmo", 6}, {"Mul", 0}},
		[]amountOf{}},
	{"se",
		[]nameOf{{"ođđajagemánnu", 1}, {"ođđj", 1}, {"guovvamánnu", 2}, {"guov", 2}, {"njukčamánnu", 3}, {"njuk", 3}, {"cuoŋománnu", 4}, {"cuo", 4}, {"miessemánnu", 5}, {"mies", 5}, {"geassemánnu", 6}, {"geas", 6}, {"suoidnemánnu", 7}, {"suoi", 7}, {"borgemánnu", 8}, {"borg", 8}, {"čakčamánnu", 9}, {"čakč", 9}, {"golggotmánnu", 10}, {"golg", 10}, {"skábmamánnu", 11}, {"skáb", 11}, {"juovlamánnu", 12}, {"juov", 12}},
		[]nameOf{{"## ođđajagemánnu #", 1}, {"## guovvamánnu #", 2}, {"## njukčamánnu #", 3}, {"## cuoŋománnu #", 4}, {"## miessemánnu #", 5}, {"## geassemánnu #", 6}, {"## suoidnemánnu #", 7}, {"## borgemánnu #", 8}, {"## čakčamánnu #", 9}, {"## golggotmánnu #", 10}, {"## skábmamánnu #", 11}, {"## juovlamánnu #", 12}},
		[]nameOf{{"vuossárga", 1}, {"maŋŋebárga", 2}, {"gaskavahkku", 3}, {"duorasdat", 4}, {"bearjadat", 5}, {"lávvardat", 6}, {"sotnabeaivi", 0}, {"vuos", 1}, {"maŋ", 2}, {"gask", 3}, {"duor", 4}, {"bear", 5}, {"láv", 6}, {"sotn", 0}},
		[]amountOf{{"1 sekunda árat", 0, -1}, {"1 sekunda maŋŋilit", 0, 1}, {"2 sekundda árat", 0, -2}, {"2 sekundda maŋŋilit", 0, 2}, {"# sekundda árat", 0, -1}, {"# sekundda maŋŋilit", 0, 1}, {"## sekundda árat", 0, -1}, {"## sekundda maŋŋilit", 0, 1}, {"1 minuhta árat", 1, -1}, {"1 minuhta maŋŋilit", 1, 1}, {"2 minuhtta árat", 1, -2}, {"2 minuhtta maŋŋilit", 1, 2}, {"# minuhtta árat", 1, -1}, {"# minuhtta maŋŋilit", 1, 1}, {"## minuhtta árat", 1, -1}, {"## minuhtta maŋŋilit", 1, 1}, {"1 diibmu árat", 2, -1}, {"1 diibmu maŋŋilit", 2, 1}, {"2 diibmur árat", 2, -2}, {"2 diibmur maŋŋilit", 2, 2}, {"# diibmur árat", 2, -1}, {"# diibmur maŋŋilit", 2, 1}, {"## diibmur árat", 2, -1}, {"## diibmur maŋŋilit", 2, 1}, {"1 jándor árat", 3, -1}, {"1 jándor maŋŋilit", 3, 1}, {"2 jándora árat", 3, -2}, {"# jándora árat", 3, -1}, {"# jándora maŋŋilit", 3, 1}, {"## jándora árat", 3, -1}, {"## jándora maŋŋilit", 3, 1}, {"1 vahku árat", 4, -1}, {"1 vahku maŋŋilit", 4, 1}, {"2 vahkku árat", 4, -2}, {"2 vahkku maŋŋilit", 4, 2}, {"# vahkku árat", 4, -1}, {"# vahkku maŋŋilit", 4, 1}, {"## vahkku árat", 4, -1}, {"## vahkku maŋŋilit", 4, 1}, {"1 mánotbadji árat", 5, -1}, {"1 mánotbadji maŋŋilit", 5, 1}, {"2 mánotbadji árat", 5, -2}, {"2 mánotbadji maŋŋilit", 5, 2}, {"# mánotbadji árat", 5, -1}, {"# mánotbadji maŋŋilit", 5, 1}, {"## mánotbadji árat", 5, -1}, {"## mánotbadji maŋŋilit", 5, 1}, {"1 jahki árat", 6, -1}, {"1 jahki maŋŋilit", 6, 1}, {"2 jahkki árat", 6, -2}, {"2 jahkki maŋŋilit", 6, 2}, {"# jahkki árat", 6, -1}, {"# jahkki maŋŋilit", 6, 1}, {"## jahkki árat", 6, -1}, {"## jahkki maŋŋilit", 6, 1}}},
	{"seh",
		[]nameOf{{"Janeiro", 1}, {"Jan", 1}, {"Fevreiro", 2}, {"Fev", 2}, {"Marco", 3}, {"Mar", 3}, {"Abril", 4}, {"Abr", 4}, {"Maio", 5}, {"Mai", 5}, {"Junho", 6}, {"Jun", 6}, {"Julho", 7}, {"Jul", 7}, {"Augusto", 8}, {"Aug", 8}, {"Setembro", 9}, {"Set", 9}, {"Otubro", 10}, {"Otu", 10}, {"Novembro", 11}, {"Nov", 11}, {"Decembro", 12}, {"Dec", 12}},
		[]nameOf{},
		[]nameOf{{"Chiposi", 1}, {"Chipiri", 2}, {"Chitatu", 3}, {"Chinai", 4}, {"Chishanu", 5}, {"Sabudu", 6}, {"Dimingu", 0}, {"Pos", 1}, {"Pir", 2}, {"Tat", 3}, {"Nai", 4}, {"Sha", 5}, {"Sab", 6}, {"Dim", 0}},
		[]amountOf{}},
	{"ses",
		[]nameOf{{"Žanwiye", 1}, {"Žan", 1}, {"Feewiriye", 2}, {"Fee", 2}, {"Marsi", 3}, {"Mar", 3}, {"Awiril", 4}, {"Awi", 4}, {"Me", 5}, {"Žuweŋ", 6}, {"Žuw", 6}, {"Žuyye", 7}, {"Žuy", 7}, {"Ut", 8}, {"Sektanbur", 9}, {"Sek", 9}, {"Oktoobur", 10}, {"Okt", 10}, {"Noowanbur", 11}, {"Noo", 11}, {"Deesanbur", 12}, {"Dee", 12}},
		[]nameOf{{"# Žanwiye ##", 1}, {"# Feewiriye ##", 2}, {"# Marsi ##", 3}, {"# Awiril ##", 4}, {"# Me ##", 5}, {"# Žuweŋ ##", 6}, {"# Žuyye ##", 7}, {"# Ut ##", 8}, {"# Sektanbur ##", 9}, {"# Oktoobur ##", 10}, {"# Noowanbur ##", 11}, {"# Deesanbur ##", 12}},
		[]nameOf{{"Atinni", 1}, {"Atalaata", 2}, {"Alarba", 3}, {"Alhamiisa", 4}, {"Alzuma", 5}, {"Asibti", 6}, {"Alhadi", 0}, {"Ati", 1}, {"Ata", 2}, {"Ala", 3}, {"Alm", 4}, {"Alz", 5}, {"Asi", 6}, {"Alh", 0}},
		[]amountOf{}},
	{"sg",
		[]nameOf{{"Nyenye", 1}, {"Nye", 1}, {"Fulundïgi", 2}, {"Ful", 2}, {"Mbängü", 3}, {"Mbä", 3}, {"Ngubùe", 4}, {"Ngu", 4}, {"Bêläwü", 5}, {"Bêl", 5}, {"Föndo", 6}, {"Fön", 6}, {"Lengua", 7}, {"Len", 7}, {"Kükürü", 8}, {"Kük", 8}, {"Mvuka", 9}, {"Mvu", 9}, {"Ngberere", 10}, {"Ngb", 10}, {"Nabändüru", 11}, {"Nab", 11}, {"Kakauka", 12}, {"Kak", 12}},
		[]nameOf{{"# Nyenye ##", 1}, {"# Fulundïgi ##", 2}, {"# Mbängü ##", 3}, {"# Ngubùe ##", 4}, {"# Bêläwü ##", 5}, {"# Föndo ##", 6}, {"# Lengua ##", 7}, {"# Kükürü ##", 8}, {"# Mvuka ##", 9}, {"# Ngberere ##", 10}, {"# Nabändüru ##", 11}, {"# Kakauka ##", 12}},
		[]nameOf{{"Bïkua-ûse", 1}, {"Bïkua-ptâ", 2}, {"Bïkua-usïö", 3}, {"Bïkua-okü", 4}, {"Lâpôsö", 5}, {"Lâyenga", 6}, {"Bikua-ôko", 0}, {"Bk2", 1}, {"Bk3", 2}, {"Bk4", 3}, {"Bk5", 4}, {"Lâp", 5}, {"Lây", 6}, {"Bk1", 0}},
		[]amountOf{}},
	{"shi",
		[]nameOf{{"ⵉⵏⵏⴰⵢⵔ", 1}, {"ⵉⵏⵏ", 1}, {"ⴱⵕⴰⵢⵕ", 2}, {"ⴱⵕⴰ", 2}, {"ⵎⴰⵕⵚ", 3}, {"ⵎⴰⵕ", 3}, {"ⵉⴱⵔⵉⵔ", 4}, {"ⵉⴱⵔ", 4}, {"ⵎⴰⵢⵢⵓ", 5}, {"ⵎⴰⵢ", 5}, {"ⵢⵓⵏⵢⵓ", 6}, {"ⵢⵓⵏ", 6}, {"ⵢⵓⵍⵢⵓⵣ", 7}, {"ⵢⵓⵍ", 7}, {"ⵖⵓⵛⵜ", 8}, {"ⵖⵓⵛ", 8}, {"ⵛⵓⵜⴰⵏⴱⵉⵔ", 9}, {"ⵛⵓⵜ", 9}, {"ⴽⵜⵓⴱⵔ", 10}, {"ⴽⵜⵓ", 10}, {"ⵏⵓⵡⴰⵏⴱⵉⵔ", 11}, {"ⵏⵓⵡ", 11}, {"ⴷⵓⵊⴰⵏⴱⵉⵔ", 12}, {"ⴷⵓⵊ", 12}},
		[]nameOf{{"# ⵉⵏⵏⴰⵢⵔ ##", 1}, {"# ⴱⵕⴰⵢⵕ ##", 2}, {"# ⵎⴰⵕⵚ ##", 3}, {"# ⵉⴱⵔⵉⵔ ##", 4}, {"# ⵎⴰⵢⵢⵓ ##", 5}, {"# ⵢⵓⵏⵢⵓ ##", 6}, {"# ⵢⵓⵍⵢⵓⵣ ##", 7}, {"# ⵖⵓⵛⵜ ##", 8}, {"# ⵛⵓⵜⴰⵏⴱⵉⵔ ##", 9}, {"# ⴽⵜⵓⴱⵔ ##", 10}, {"# ⵏⵓⵡⴰⵏⴱⵉⵔ ##", 11}, {"# ⴷⵓⵊⴰⵏⴱⵉⵔ ##", 12}},
		[]nameOf{{"ⴰⵢⵏⴰⵙ", 1}, {"ⴰⵙⵉⵏⴰⵙ", 2}, {"ⴰⴽⵕⴰⵙ", 3}, {"ⴰⴽⵡⴰⵙ", 4}, {"ⵙⵉⵎⵡⴰⵙ", 5}, {"ⴰⵙⵉⴹⵢⴰⵙ", 6}, {"ⴰⵙⴰⵎⴰⵙ", 0}, {"ⴰⵢⵏ", 1}, {"ⴰⵙⵉ", 2}, {"ⴰⴽⵕ", 3}, {"ⴰⴽⵡ", 4}, {"ⴰⵙⵉⵎ", 5}, {"ⴰⵙⵉⴹ", 6}, {"ⴰⵙⴰ", 0}},
		[]amountOf{}},
	{"shi-Latn",
		[]nameOf{{"innayr", 1}, {"inn", 1}, {"bṛayṛ", 2}, {"bṛa", 2}, {"maṛṣ", 3}, {"maṛ", 3}, {"ibrir", 4}, {"ibr", 4}, {"mayyu", 5}, {"may", 5}, {"yunyu", 6}, {"yun", 6}, {"yulyuz", 7}, {"yul", 7}, {"ɣuct", 8}, {"ɣuc", 8}, {"cutanbir", 9}, {"cut", 9}, {"ktubr", 10}, {"ktu", 10}, {"nuwanbir", 11}, {"nuw", 11}, {"dujanbir", 12}, {"duj", 12}},
		[]nameOf{{"# innayr ##", 1}, {"# bṛayṛ ##", 2}, {"# maṛṣ ##", 3}, {"# ibrir ##", 4}, {"# mayyu ##", 5}, {"# yunyu ##", 6}, {"# yulyuz ##", 7}, {"# ɣuct ##", 8}, {"# cutanbir ##", 9}, {"# ktubr ##", 10}, {"# nuwanbir ##", 11}, {"# dujanbir ##", 12}},
		[]nameOf{{"aynas", 1}, {"asinas", 2}, {"akṛas", 3}, {"akwas", 4}, {"asimwas", 5}, {"asiḍyas", 6}, {"asamas", 0}, {"ayn", 1}, {"asi", 2}, {"akṛ", 3}, {"akw", 4}, {"asim", 5}, {"asiḍ", 6}, {"asa", 0}},
		[]amountOf{}},
	{"shi-Tfng",
		[]nameOf{{"ⵉⵏⵏⴰⵢⵔ", 1}, {"ⵉⵏⵏ", 1}, {"ⴱⵕⴰⵢⵕ", 2}, {"ⴱⵕⴰ", 2}, {"ⵎⴰⵕⵚ", 3}, {"ⵎⴰⵕ", 3}, {"ⵉⴱⵔⵉⵔ", 4}, {"ⵉⴱⵔ", 4}, {"ⵎⴰⵢⵢⵓ", 5}, {"ⵎⴰⵢ", 5}, {"ⵢⵓⵏⵢⵓ", 6}, {"ⵢⵓⵏ", 6}, {"ⵢⵓⵍⵢⵓⵣ", 7}, {"ⵢⵓⵍ", 7}, {"ⵖⵓⵛⵜ", 8}, {"ⵖⵓⵛ", 8}, {"ⵛⵓⵜⴰⵏⴱⵉⵔ", 9}, {"ⵛⵓⵜ", 9}, {"ⴽⵜⵓⴱⵔ", 10}, {"ⴽⵜⵓ", 10}, {"ⵏⵓⵡⴰⵏⴱⵉⵔ", 11}, {"ⵏⵓⵡ", 11}, {"ⴷⵓⵊⴰⵏⴱⵉⵔ", 12}, {"ⴷⵓⵊ", 12}},
		[]nameOf{{"# ⵉⵏⵏⴰⵢⵔ ##", 1}, {"# ⴱⵕⴰⵢⵕ ##", 2}, {"# ⵎⴰⵕⵚ ##", 3}, {"# ⵉⴱⵔⵉⵔ ##", 4}, {"# ⵎⴰⵢⵢⵓ ##", 5}, {"# ⵢⵓⵏⵢⵓ ##", 6}, {"# ⵢⵓⵍⵢⵓⵣ ##", 7}, {"# ⵖⵓⵛⵜ ##", 8}, {"# ⵛⵓⵜⴰⵏⴱⵉⵔ ##", 9}, {"# ⴽⵜⵓⴱⵔ ##", 10}, {"# ⵏⵓⵡⴰⵏⴱⵉⵔ ##", 11}, {"# ⴷⵓⵊⴰⵏⴱⵉⵔ ##", 12}},
		[]nameOf{{"ⴰⵢⵏⴰⵙ", 1}, {"ⴰⵙⵉⵏⴰⵙ", 2}, {"ⴰⴽⵕⴰⵙ", 3}, {"ⴰⴽⵡⴰⵙ", 4}, {"ⵙⵉⵎⵡⴰⵙ", 5}, {"ⴰⵙⵉⴹⵢⴰⵙ", 6}, {"ⴰⵙⴰⵎⴰⵙ", 0}, {"ⴰⵢⵏ", 1}, {"ⴰⵙⵉ", 2}, {"ⴰⴽⵕ", 3}, {"ⴰⴽⵡ", 4}, {"ⴰⵙⵉⵎ", 5}, {"ⴰⵙⵉⴹ", 6}, {"ⴰⵙⴰ", 0}},
		[]amountOf{}},
	{"si",
		[]nameOf{},
		[]nameOf{},
		[]nameOf{{"සඳුදා", 1}, {"අඟහරුවාදා", 2}, {"බදාදා", 3}, {"බ්\u200dරහස්පතින්දා", 4}, {"සිකුරාදා", 5}, {"සෙනසුරාදා", 6}, {"ඉරිදා", 0}, {"අඟහ", 2}, {"බ්\u200dරහස්", 4}, {"සිකු", 5}, {"සෙන", 6}},
		[]amountOf{{"තත්පර 1කට පෙර", 0, -1}, {"තත්පර 1කින්", 0, 1}, {"තත්පර 2කට පෙර", 0, -2}, {"තත්පර 2කින්", 0, 2}, {"තත්පර #කට පෙර", 0, -1}, {"තත්පර #කින්", 0, 1}, {"තත්පර ##කට පෙර", 0, -1}, {"තත්පර ##කින්", 0, 1}, {"මිනිත්තු 1කට පෙර", 1, -1}, {"මිනිත්තු 1කින්", 1, 1}, {"මිනිත්තු 2කට පෙර", 1, -2}, {"මිනිත්තු 2කින්", 1, 2}, {"මිනිත්තු #කට පෙර", 1, -1}, {"මිනිත්තු #කින්", 1, 1}, {"මිනිත්තු ##කට පෙර", 1, -1}, {"මිනිත්තු ##කින්", 1, 1}, {"පැය 1කට පෙර", 2, -1}, {"පැය 1කින්", 2, 1}, {"පැය 2කට පෙර", 2, -2}, {"පැය 2කින්", 2, 2}, {"පැය #කට පෙර", 2, -1}, {"පැය #කින්", 2, 1}, {"පැය ##කට පෙර", 2, -1}, {"පැය ##කින්", 2, 1}, {"දින 1කට පෙර", 3, -1}, {"දින 1න්", 3, 1}, {"දින 2කට පෙර", 3, -2}, {"දින 2න්", 3, 2}, {"දින #කට පෙර", 3, -1}, {"දින #න්", 3, 1}, {"දින ##කට පෙර", 3, -1}, {"දින ##න්", 3, 1}, {"සති 1කට පෙර", 4, -1}, {"සති 1කින්", 4, 1}, {"සති 2කට පෙර", 4, -2}, {"සති 2කින්", 4, 2}, {"සති #කට පෙර", 4, -1}, {"සති #කින්", 4, 1}, {"සති ##කට පෙර", 4, -1}, {"සති ##කින්", 4, 1}, {"මාස 1කට පෙර", 5, -1}, {"මාස 1කින්", 5, 1}, {"මාස 2කට පෙර", 5, -2}, {"මාස 2කින්", 5, 2}, {"මාස #කට පෙර", 5, -1}, {"මාස #කින්", 5, 1}, {"මාස ##කට පෙර", 5, -1}, {"මාස ##කින්", 5, 1}, {"වසර 1කට පෙර", 6, -1}, {"වසර 1කින්", 6, 1}, {"වසර 2කට පෙර", 6, -2}, {"වසර 2කින්", 6, 2}, {"වසර #කට පෙර", 6, -1}, {"වසර #කින්", 6, 1}, {"වසර ##කට පෙර", 6, -1}, {"වසර ##කින්", 6, 1}}},
	{"sk",
		[]nameOf{{"januára", 1}, {"január", 1}, {"1", 1}, {"februára", 2}, {"február", 2}, {"2", 2}, {"marca", 3}, {"marec", 3}, {"3", 3}, {"apríla", 4}, {"apríl", 4}, {"4", 4}, {"mája", 5}, {"máj", 5}, {"5", 5}, {"júna", 6}, {"jún", 6}, {"6", 6}, {"júla", 7}, {"júl", 7}, {"7", 7}, {"augusta", 8}, {"august", 8}, {"8", 8}, {"septembra", 9}, {"september", 9}, {"9", 9}, {"októbra", 10}, {"október", 10}, {"10", 10}, {"novembra", 11}, {"november", 11}, {"11", 11}, {"decembra", 12}, {"december", 12}, {"12", 12}},
		[]nameOf{{"#. januára ##", 1}, {"#. februára ##", 2}, {"#. marca ##", 3}, {"#. apríla ##", 4}, {"#. mája ##", 5}, {"#. júna ##", 6}, {"#. júla ##", 7}, {"#. augusta ##", 8}, {"#. septembra ##", 9}, {"#. októbra ##", 10}, {"#. novembra ##", 11}, {"#. decembra ##", 12}},
		[]nameOf{{"pondelok", 1}, {"utorok", 2}, {"streda", 3}, {"štvrtok", 4}, {"piatok", 5}, {"sobota", 6}, {"nedeľa", 0}, {"po", 1}, {"ut", 2}, {"st", 3}, {"št", 4}, {"pi", 5}, {"so", 6}, {"ne", 0}},
		[]amountOf{{"pred 1 sekundou", 0, -1}, {"o 1 sekundu", 0, 1}, {"pred 2 sekundami", 0, -2}, {"o 2 sekundy", 0, 2}, {"pred # sekundami", 0, -1}, {"o # sekúnd", 0, 1}, {"pred ## sekundami", 0, -1}, {"o ## sekúnd", 0, 1}, {"pred 1 minútou", 1, -1}, {"o 1 minútu", 1, 1}, {"pred 2 minútami", 1, -2}, {"o 2 minúty", 1, 2}, {"pred # minútami", 1, -1}, {"o # minút", 1, 1}, {"pred ## minútami", 1, -1}, {"o ## minút", 1, 1}, {"pred 1 hodinou", 2, -1}, {"o 1 hodinu", 2, 1}, {"pred 2 hodinami", 2, -2}, {"o 2 hodiny", 2, 2}, {"pred # hodinami", 2, -1}, {"o # hodín", 2, 1}, {"pred ## hodinami", 2, -1}, {"o ## hodín", 2, 1}, {"pred 1 dňom", 3, -1}, {"o 1 deň", 3, 1}, {"pred 2 dňami", 3, -2}, {"o 2 dni", 3, 2}, {"pred # dňami", 3, -1}, {"o # dní", 3, 1}, {"pred ## dňami", 3, -1}, {"o ## dní", 3, 1}, {"pred 1 týždňom", 4, -1}, {"o 1 týždeň", 4, 1}, {"pred 2 týždňami", 4, -2}, {"o 2 týždne", 4, 2}, {"pred # týždňami", 4, -1}, {"o # týždňov", 4, 1}, {"pred ## týždňami", 4, -1}, {"o ## týždňov", 4, 1}, {"pred 1 mesiacom", 5, -1}, {"o 1 mesiac", 5, 1}, {"pred 2 mesiacmi", 5, -2}, {"o 2 mesiace", 5, 2}, {"pred # mesiacmi", 5, -1}, {"o # mesiacov", 5, 1}, {"pred ## mesiacmi", 5, -1}, {"o ## mesiacov", 5, 1}, {"pred 1 rokom", 6, -1}, {"o 1 rok", 6, 1}, {"pred 2 rokmi", 6, -2}, {"o 2 roky", 6, 2}, {"pred # rokmi", 6, -1}, {"o # rokov", 6, 1}, {"pred ## rokmi", 6, -1}, {"o ## rokov", 6, 1}}},
	{"sl",
		[]nameOf{{"januar", 1}, {"jan.", 1}, {"februar", 2}, {"feb.", 2}, {"marec", 3}, {"mar.", 3}, {"april", 4}, {"apr.", 4}, {"maj", 5}, {"junij", 6}, {"jun.", 6}, {"julij", 7}, {"jul.", 7}, {"avgust", 8}, {"avg.", 8}, {"september", 9}, {"sep.", 9}, {"oktober", 10}, {"okt.", 10}, {"november", 11}, {"nov.", 11}, {"december", 12}, {"dec.", 12}},
		[]nameOf{{"#. januar ##", 1}, {"#. februar ##", 2}, {"#. marec ##", 3}, {"#. april ##", 4}, {"#. maj ##", 5}, {"#. junij ##", 6}, {"#. julij ##", 7}, {"#. avgust ##", 8}, {"#. september ##", 9}, {"#. oktober ##", 10}, {"#. november ##", 11}, {"#. december ##", 12}},
		[]nameOf{{"ponedeljek", 1}, {"torek", 2}, {"sreda", 3}, {"četrtek", 4}, {"petek", 5}, {"sobota", 6}, {"nedelja", 0}, {"pon.", 1}, {"tor.", 2}, {"sre.", 3}, {"čet.", 4}, {"pet.", 5}, {"sob.", 6}, {"ned.", 0}},
		[]amountOf{{"pred 1 sekundo", 0, -1}, {"čez 1 sekundo", 0, 1}, {"pred # sekundami", 0, -1}, {"čez # sekund", 0, 1}, {"pred ## sekundami", 0, -1}, {"čez ## sekund", 0, 1}, {"pred 1 minuto", 1, -1}, {"čez 1 minuto", 1, 1}, {"pred # minutami", 1, -1}, {"čez # minut", 1, 1}, {"pred ## minutami", 1, -1}, {"čez ## minut", 1, 1}, {"pred 1 uro", 2, -1}, {"čez 1 uro", 2, 1}, {"pred # urami", 2, -1}, {"čez # ur", 2, 1}, {"pred ## urami", 2, -1}, {"čez ## ur", 2, 1}, {"pred 1 dnevom", 3, -1}, {"čez 1 dan", 3, 1}, {"pred # dnevi", 3, -1}, {"čez # dni", 3, 1}, {"pred ## dnevi", 3, -1}, {"čez ## dni", 3, 1}, {"pred 1 tednom", 4, -1}, {"čez 1 teden", 4, 1}, {"pred # tedni", 4, -1}, {"čez # tednov", 4, 1}, {"pred ## tedni", 4, -1}, {"čez ## tednov", 4, 1}, {"pred 1 mesecem", 5, -1}, {"čez 1 mesec", 5, 1}, {"pred # meseci", 5, -1}, {"čez # mesecev", 5, 1}, {"pred ## meseci", 5, -1}, {"čez ## mesecev", 5, 1}, {"pred 1 letom", 6, -1}, {"čez 1 leto", 6, 1}, {"pred # leti", 6, -1}, {"čez # let", 6, 1}, {"pred ## leti", 6, -1}, {"čez ## let", 6, 1}}},
	{"smn",
		[]nameOf{{"uđđâivemáánu", 1}, {"uđiv", 1}, {"kuovâmáánu", 2}, {"kuovâ", 2}, {"njuhčâmáánu", 3}, {"njuhčâ", 3}, {"cuáŋuimáánu", 4}, {"cuáŋui", 4}, {"vyesimáánu", 5}, {"vyesi", 5}, {"kesimáánu", 6}, {"kesi", 6}, {"syeinimáánu", 7}, {"syeini", 7}, {"porgemáánu", 8}, {"porge", 8}, {"čohčâmáánu", 9}, {"čohčâ", 9}, {"roovvâdmáánu", 10}, {"roovvâd", 10}, {"skammâmáánu", 11}, {"skammâ", 11}, {"juovlâmáánu", 12}, {"juovlâ", 12}},
		[]nameOf{{"uđđâivemáánu #. ##", 1}, {"kuovâmáánu #. ##", 2}, {"njuhčâmáánu #. ##", 3}, {"cuáŋuimáánu #. ##", 4}, {"vyesimáánu #. ##", 5}, {"kesimáánu #. ##", 6}, {"syeinimáánu #. ##", 7}, {"porgemáánu #. ##", 8}, {"čohčâmáánu #. ##", 9}, {"roovvâdmáánu #. ##", 10}, {"skammâmáánu #. ##", 11}, {"juovlâmáánu #. ##", 12}},
		[]nameOf{{"vuossargâ", 1}, {"majebargâ", 2}, {"koskokko", 3}, {"tuorâstâh", 4}, {"vástuppeivi", 5}, {"lávurdâh", 6}, {"pasepeivi", 0}, {"vuo", 1}, {"maj", 2}, {"kos", 3}, {"tuo", 4}, {"vás", 5}, {"láv", 6}, {"pas", 0}},
		[]amountOf{}},
	{"sn",
		[]nameOf{{"Ndira", 1}, {"Ndi", 1}, {"Kukadzi", 2}, {"Kuk", 2}, {"Kurume", 3}, {"Kur", 3}, {"Kubvumbi", 4}, {"Kub", 4}, {"Chivabvu", 5}, {"Chv", 5}, {"Chikumi", 6}, {"Chk", 6}, {"Chikunguru", 7}, {"Chg", 7}, {"Nyamavhuvhu", 8}, {"Nya", 8}, {"Gunyana", 9}, {"Gun", 9}, {"Gumiguru", 10}, {"Gum", 10}, {"Mbudzi", 11}, {"Mbu", 11}, {"Zvita", 12}, {"Zvi", 12}},
		[]nameOf{{"## Ndira #", 1}, {"## Kukadzi #", 2}, {"## Kurume #", 3}, {"## Kubvumbi #", 4}, {"## Chivabvu #", 5}, {"## Chikumi #", 6}, {"## Chikunguru #", 7}, {"## Nyamavhuvhu #", 8}, {"## Gunyana #", 9}, {"## Gumiguru #", 10}, {"## Mbudzi #", 11}, {"## Zvita #", 12}},
		[]nameOf{{"Muvhuro", 1}, {"Chipiri", 2}, {"Chitatu", 3}, {"China", 4}, {"Chishanu", 5}, {"Mugovera", 6}, {"Svondo", 0}, {"Muv", 1}, {"Chp", 2}, {"Cht", 3}, {"Chn", 4}, {"Chs", 5}, {"Mug", 6}, {"Svo", 0}},
		[]amountOf{}},
	{"so",
		[]nameOf{},
		[]nameOf{},
		[]nameOf{{"Isniin", 1}, {"Talaado", 2}, {"Arbaco", 3}, {"Khamiis", 4}, {"Jimco", 5}, {"Sabti", 6}, {"Axad", 0}, {"Isn", 1}, {"Axd", 0}},
		[]amountOf{}},
	{"sq",
		[]nameOf{{"janar", 1}, {"jan", 1}, {"shkurt", 2}, {"shk", 2}, {"mars", 3}, {"prill", 4}, {"pri", 4}, {"maj", 5}, {"qershor", 6}, {"qer", 6}, {"korrik", 7}, {"gusht", 8}, {"shtator", 9}, {"tetor", 10}, {"tet", 10}, {"nëntor", 11}, {"nën", 11}, {"dhjetor", 12}, {"dhj", 12}},
		[]nameOf{{"# janar ##", 1}, {"# shkurt ##", 2}, {"# mars ##", 3}, {"# prill ##", 4}, {"# maj ##", 5}, {"# qershor ##", 6}, {"# korrik ##", 7}, {"# gusht ##", 8}, {"# shtator ##", 9}, {"# tetor ##", 10}, {"# nëntor ##", 11}, {"# dhjetor ##", 12}},
		[]nameOf{{"e hënë", 1}, {"e martë", 2}, {"e mërkurë", 3}, {"e enjte", 4}, {"e premte", 5}, {"e shtunë", 6}, {"e diel", 0}, {"hën", 1}, {"mër", 3}, {"enj", 4}, {"pre", 5}, {"die", 0}},
		[]amountOf{{"1 sekondë më parë", 0, -1}, {"pas 1 sekonde", 0, 1}, {"2 sekonda më parë", 0, -2}, {"pas 2 sekondash", 0, 2}, {"# sekonda më parë", 0, -1}, {"pas # sekondash", 0, 1}, {"## sekonda më parë", 0, -1}, {"pas ## sekondash", 0, 1}, {"1 minutë më parë", 1, -1}, {"pas 1 minute", 1, 1}, {"2 minuta më parë", 1, -2}, {"pas 2 minutash", 1, 2}, {"# minuta më parë", 1, -1}, {"pas # minutash", 1, 1}, {"## minuta më parë", 1, -1}, {"pas ## minutash", 1, 1}, {"1 orë më parë", 2, -1}, {"pas 1 ore", 2, 1}, {"2 orë më parë", 2, -2}, {"pas 2 orësh", 2, 2}, {"# orë më parë", 2, -1}, {"pas # orësh", 2, 1}, {"## orë më parë", 2, -1}, {"pas ## orësh", 2, 1}, {"1 ditë më parë", 3, -1}, {"pas 1 dite", 3, 1}, {"2 ditë më parë", 3, -2}, {"pas 2 ditësh", 3, 2}, {"# ditë më parë", 3, -1}, {"pas # ditësh", 3, 1}, {"## ditë më parë", 3, -1}, {"pas ## ditësh", 3, 1}, {"1 javë më parë", 4, -1}, {"pas 1 jave", 4, 1}, {"2 javë më parë", 4, -2}, {"pas 2 javësh", 4, 2}, {"# javë më parë", 4, -1}, {"pas # javësh", 4, 1}, {"## javë më parë", 4, -1}, {"pas ## javësh", 4, 1}, {"1 muaj më parë", 5, -1}, {"pas 1 muaji", 5, 1}, {"2 muaj më parë", 5, -2}, {"pas 2 muajsh", 5, 2}, {"# muaj më parë", 5, -1}, {"pas # muajsh", 5, 1}, {"## muaj më parë", 5, -1}, {"pas ## muajsh", 5, 1}, {"1 vit më parë", 6, -1}, {"pas 1 viti", 6, 1}, {"2 vjet më parë", 6, -2}, {"pas 2 vjetësh", 6, 2}, {"# vjet më parë", 6, -1}, {"pas # vjetësh", 6, 1}, {"## vjet më parë", 6, -1}, {"pas ## vjetësh", 6, 1}}},
	{"sr",
		[]nameOf{{"јануар", 1}, {"јан", 1}, {"фебруар", 2}, {"феб", 2}, {"март", 3}, {"мар", 3}, {"април", 4}, {"апр", 4}, {"мај", 5}, {"јун", 6}, {"јул", 7}, {"август", 8}, {"авг", 8}, {"септембар", 9}, {"сеп", 9}, {"октобар", 10}, {"окт", 10}, {"новембар", 11}, {"нов", 11}, {"децембар", 12}, {"дец", 12}},
		[]nameOf{{"#. јануар ##.", 1}, {"#. фебруар ##.", 2}, {"#. март ##.", 3}, {"#. април ##.", 4}, {"#. мај ##.", 5}, {"#. јун ##.", 6}, {"#. јул ##.", 7}, {"#. август ##.", 8}, {"#. септембар ##.", 9}, {"#. октобар ##.", 10}, {"#. новембар ##.", 11}, {"#. децембар ##.", 12}},
		[]nameOf{{"понедељак", 1}, {"уторак", 2}, {"среда", 3}, {"четвртак", 4}, {"петак", 5}, {"субота", 6}, {"недеља", 0}, {"пон", 1}, {"уто", 2}, {"сре", 3}, {"чет", 4}, {"пет", 5}, {"суб", 6}},
		[]amountOf{{"пре 1 секунде", 0, -1}, {"за 1 секунду", 0, 1}, {"пре 2 секунде", 0, -2}, {"пре # секунди", 0, -1}, {"за # секунди", 0, 1}, {"пре ## секунди", 0, -1}, {"за ## секунди", 0, 1}, {"пре 1 минута", 1, -1}, {"за 1 минут", 1, 1}, {"пре 2 минута", 1, -2}, {"за 2 минута", 1, 2}, {"пре # минута", 1, -1}, {"за # минута", 1, 1}, {"пре ## минута", 1, -1}, {"за ## минута", 1, 1}, {"пре 1 сата", 2, -1}, {"за 1 сат", 2, 1}, {"пре 2 сата", 2, -2}, {"пре # сати", 2, -1}, {"за # сати", 2, 1}, {"пре ## сати", 2, -1}, {"за ## сати", 2, 1}, {"пре 1 дана", 3, -1}, {"за 1 дан", 3, 1}, {"пре 2 дана", 3, -2}, {"за 2 дана", 3, 2}, {"пре # дана", 3, -1}, {"за # дана", 3, 1}, {"пре ## дана", 3, -1}, {"за ## дана", 3, 1}, {"пре 1 недеље", 4, -1}, {"за 1 недељу", 4, 1}, {"пре 2 недеље", 4, -2}, {"пре # недеља", 4, -1}, {"за # недеља", 4, 1}, {"пре ## недеља", 4, -1}, {"за ## недеља", 4, 1}, {"пре 1 месеца", 5, -1}, {"за 1 месец", 5, 1}, {"пре 2 месеца", 5, -2}, {"пре # месеци", 5, -1}, {"за # месеци", 5, 1}, {"пре ## месеци", 5, -1}, {"за ## месеци", 5, 1}, {"пре 1 године", 6, -1}, {"за 1 годину", 6, 1}, {"пре 2 године", 6, -2}, {"пре # година", 6, -1}, {"за # година", 6, 1}, {"пре ## година", 6, -1}, {"за ## година", 6, 1}}},
	{"sr-Cyrl",
		[]nameOf{{"јануар", 1}, {"јан", 1}, {"фебруар", 2}, {"феб", 2}, {"март", 3}, {"мар", 3}, {"април", 4}, {"апр", 4}, {"мај", 5}, {"јун", 6}, {"јул", 7}, {"август", 8}, {"авг", 8}, {"септембар", 9}, {"сеп", 9}, {"октобар", 10}, {"окт", 10}, {"новембар", 11}, {"нов", 11}, {"децембар", 12}, {"дец", 12}},
		[]nameOf{{"#. јануар ##.", 1}, {"#. фебруар ##.", 2}, {"#. март ##.", 3}, {"#. април ##.", 4}, {"#. мај ##.", 5}, {"#. јун ##.", 6}, {"#. јул ##.", 7}, {"#. август ##.", 8}, {"#. септембар ##.", 9}, {"#. октобар ##.", 10}, {"#. новембар ##.", 11}, {"#. децембар ##.", 12}},
		[]nameOf{{"понедељак", 1}, {"уторак", 2}, {"среда", 3}, {"четвртак", 4}, {"петак", 5}, {"субота", 6}, {"недеља", 0}, {"пон", 1}, {"уто", 2}, {"сре", 3}, {"чет", 4}, {"пет", 5}, {"суб", 6}},
		[]amountOf{{"пре 1 секунде", 0, -1}, {"за 1 секунду", 0, 1}, {"пре 2 секунде", 0, -2}, {"пре # секунди", 0, -1}, {"за # секунди", 0, 1}, {"пре ## секунди", 0, -1}, {"за ## секунди", 0, 1}, {"пре 1 минута", 1, -1}, {"за 1 минут", 1, 1}, {"пре 2 минута", 1, -2}, {"за 2 минута", 1, 2}, {"пре # минута", 1, -1}, {"за # минута", 1, 1}, {"пре ## минута", 1, -1}, {"за ## минута", 1, 1}, {"пре 1 сата", 2, -1}, {"за 1 сат", 2, 1}, {"пре 2 сата", 2, -2}, {"пре # сати", 2, -1}, {"за # сати", 2, 1}, {"пре ## сати", 2, -1}, {"за ## сати", 2, 1}, {"пре 1 дана", 3, -1}, {"за 1 дан", 3, 1}, {"пре 2 дана", 3, -2}, {"за 2 дана", 3, 2}, {"пре # дана", 3, -1}, {"за # дана", 3, 1}, {"пре ## дана", 3, -1}, {"за ## дана", 3, 1}, {"пре 1 недеље", 4, -1}, {"за 1 недељу", 4, 1}, {"пре 2 недеље", 4, -2}, {"пре # недеља", 4, -1}, {"за # недеља", 4, 1}, {"пре ## недеља", 4, -1}, {"за ## недеља", 4, 1}, {"пре 1 месеца", 5, -1}, {"за 1 месец", 5, 1}, {"пре 2 месеца", 5, -2}, {"пре # месеци", 5, -1}, {"за # месеци", 5, 1}, {"пре ## месеци", 5, -1}, {"за ## месеци", 5, 1}, {"пре 1 године", 6, -1}, {"за 1 годину", 6, 1}, {"пре 2 године", 6, -2}, {"пре # година", 6, -1}, {"за # година", 6, 1}, {"пре ## година", 6, -1}, {"за ## година", 6, 1}}},
	{"sr-Latn",
		[]nameOf{{"januar", 1}, {"jan", 1}, {"februar", 2}, {"feb", 2}, {"mart", 3}, {"mar", 3}, {"april", 4}, {"apr", 4}, {"maj", 5}, {"jun", 6}, {"jul", 7}, {"avgust", 8}, {"avg", 8}, {"septembar", 9}, {"sep", 9}, {"oktobar", 10}, {"okt", 10}, {"novembar", 11}, {"nov", 11}, {"decembar", 12}, {"dec", 12}},
		[]nameOf{{"#. januar ##.", 1}, {"#. februar ##.", 2}, {"#. mart ##.", 3}, {"#. april ##.", 4}, {"#. maj ##.", 5}, {"#. jun ##.", 6}, {"#. jul ##.", 7}, {"#. avgust ##.", 8}, {"#. septembar ##.", 9}, {"#. oktobar ##.", 10}, {"#. novembar ##.", 11}, {"#. decembar ##.", 12}},
		[]nameOf{{"ponedeljak", 1}, {"utorak", 2}, {"sreda", 3}, {"četvrtak", 4}, {"petak", 5}, {"subota", 6}, {"nedelja", 0}, {"pon", 1}, {"uto", 2}, {"sre", 3}, {"čet", 4}, {"pet", 5}, {"sub", 6}},
		[]amountOf{{"pre 1 sekunde", 0, -1}, {"za 1 sekundu", 0, 1}, {"pre 2 sekunde", 0, -2}, {"pre # sekundi", 0, -1}, {"za # sekundi", 0, 1}, {"pre ## sekundi", 0, -1}, {"za ## sekundi", 0, 1}, {"pre 1 minuta", 1, -1}, {"za 1 minut", 1, 1}, {"pre 2 minuta", 1, -2}, {"za 2 minuta", 1, 2}, {"pre # minuta", 1, -1}, {"za # minuta", 1, 1}, {"pre ## minuta", 1, -1}, {"za ## minuta", 1, 1}, {"pre 1 sata", 2, -1}, {"za 1 sat", 2, 1}, {"pre 2 sata", 2, -2}, {"pre # sati", 2, -1}, {"za # sati", 2, 1}, {"pre ## sati", 2, -1}, {"za ## sati", 2, 1}, {"pre 1 dana", 3, -1}, {"za 1 dan", 3, 1}, {"pre 2 dana", 3, -2}, {"za 2 dana", 3, 2}, {"pre # dana", 3, -1}, {"za # dana", 3, 1}, {"pre ## dana", 3, -1}, {"za ## dana", 3, 1}, {"pre 1 nedelje", 4, -1}, {"za 1 nedelju", 4, 1}, {"pre 2 nedelje", 4, -2}, {"pre # nedelja", 4, -1}, {"za # nedelja", 4, 1}, {"pre ## nedelja", 4, -1}, {"za ## nedelja", 4, 1}, {"pre 1 meseca", 5, -1}, {"za 1 mesec", 5, 1}, {"pre 2 meseca", 5, -2}, {"pre # meseci", 5, -1}, {"za # meseci", 5, 1}, {"pre ## meseci", 5, -1}, {"za ## meseci", 5, 1}, {"pre 1 godine", 6, -1}, {"za 1 godinu", 6, 1}, {"pre 2 godine", 6, -2}, {"pre # godina", 6, -1}, {"za # godina", 6, 1}, {"pre ## godina", 6, -1}, {"za ## godina", 6, 1}}},
	{"sv",
		[]nameOf{{"januari", 1}, {"jan.", 1}, {"februari", 2}, {"feb.", 2}, {"mars", 3}, {"april", 4}, {"apr.", 4}, {"maj", 5}, {"juni", 6}, {"juli", 7}, {"augusti", 8}, {"aug.", 8}, {"september", 9}, {"sep.", 9}, {"oktober", 10}, {"okt.", 10}, {"november", 11}, {"nov.", 11}, {"december", 12}, {"dec.", 12}},
		[]nameOf{{"# januari ##", 1}, {"# februari ##", 2}, {"# mars ##", 3}, {"# april ##", 4}, {"# maj ##", 5}, {"# juni ##", 6}, {"# juli ##", 7}, {"# augusti ##", 8}, {"# september ##", 9}, {"# oktober ##", 10}, {"# november ##", 11}, {"# december ##", 12}},
		[]nameOf{{"måndag", 1}, {"tisdag", 2}, {"onsdag", 3}, {"torsdag", 4}, {"fredag", 5}, {"lördag", 6}, {"söndag", 0}, {"tis", 2}, {"ons", 3}, {"tors", 4}, {"fre", 5}, {"lör", 6}, {"sön", 0}},
		[]amountOf{{"för 1 sekund sedan", 0, -1}, {"om 1 sekund", 0, 1}, {"för 2 sekunder sedan", 0, -2}, {"om 2 sekunder", 0, 2}, {"för # sekunder sedan", 0, -1}, {"om # sekunder", 0, 1}, {"för ## sekunder sedan", 0, -1}, {"om ## sekunder", 0, 1}, {"för 1 minut sedan", 1, -1}, {"om 1 minut", 1, 1}, {"för 2 minuter sedan", 1, -2}, {"om 2 minuter", 1, 2}, {"för # minuter sedan", 1, -1}, {"om # minuter", 1, 1}, {"för ## minuter sedan", 1, -1}, {"om ## minuter", 1, 1}, {"för 1 timme sedan", 2, -1}, {"om 1 timme", 2, 1}, {"för 2 timmar sedan", 2, -2}, {"om 2 timmar", 2, 2}, {"för # timmar sedan", 2, -1}, {"om # timmar", 2, 1}, {"för ## timmar sedan", 2, -1}, {"om ## timmar", 2, 1}, {"för 1 dag sedan", 3, -1}, {"om 1 dag", 3, 1}, {"för 2 dagar sedan", 3, -2}, {"om 2 dagar", 3, 2}, {"för # dagar sedan", 3, -1}, {"om # dagar", 3, 1}, {"för ## dagar sedan", 3, -1}, {"om ## dagar", 3, 1}, {"för 1 vecka sedan", 4, -1}, {"om 1 vecka", 4, 1}, {"för 2 veckor sedan", 4, -2}, {"om 2 veckor", 4, 2}, {"för # veckor sedan", 4, -1}, {"om # veckor", 4, 1}, {"för ## veckor sedan", 4, -1}, {"om ## veckor", 4, 1}, {"för 1 månad sedan", 5, -1}, {"om 1 månad", 5, 1}, {"för 2 månader sedan", 5, -2}, {"om 2 månader", 5, 2}, {"för # månader sedan", 5, -1}, {"om # månader", 5, 1}, {"för ## månader sedan", 5, -1}, {"om ## månader", 5, 1}, {"för 1 år sedan", 6, -1}, {"om 1 år", 6, 1}, {"för 2 år sedan", 6, -2}, {"om 2 år", 6, 2}, {"för # år sedan", 6, -1}, {"om # år", 6, 1}, {"för ## år sedan", 6, -1}, {"om ## år", 6, 1}}},
	{"sw",
		[]nameOf{{"Januari", 1}, {"Jan", 1}, {"Februari", 2}, {"Feb", 2}, {"Machi", 3}, {"Mac", 3}, {"Aprili", 4}, {"Apr", 4}, {"Mei", 5}, {"Juni", 6}, {"Jun", 6}, {"Julai", 7}, {"Jul", 7}, {"Agosti", 8}, {"Ago", 8}, {"Septemba", 9}, {"Sep", 9}, {"Oktoba", 10}, {"Okt", 10}, {"Novemba", 11}, {"Nov", 11}, {"Desemba", 12}, {"Des", 12}},
		[]nameOf{{"# Januari ##", 1}, {"# Februari ##", 2}, {"# Machi ##", 3}, {"# Aprili ##", 4}, {"# Mei ##", 5}, {"# Juni ##", 6}, {"# Julai ##", 7}, {"# Agosti ##", 8}, {"# Septemba ##", 9}, {"# Oktoba ##", 10}, {"# Novemba ##", 11}, {"# Desemba ##", 12}},
		[]nameOf{{"Jumatatu", 1}, {"Jumanne", 2}, {"Jumatano", 3}, {"Alhamisi", 4}, {"Ijumaa", 5}, {"Jumamosi", 6}, {"Jumapili", 0}},
		[]amountOf{{"Sekunde 1 iliyopita", 0, -1}, {"baada ya sekunde 1", 0, 1}, {"Sekunde 2 zilizopita", 0, -2}, {"baada ya sekunde 2", 0, 2}, {"Sekunde # zilizopita", 0, -1}, {"baada ya sekunde #", 0, 1}, {"Sekunde ## zilizopita", 0, -1}, {"baada ya sekunde ##", 0, 1}, {"dakika 1 iliyopita", 1, -1}, {"baada ya dakika 1", 1, 1}, {"dakika 2 zilizopita", 1, -2}, {"baada ya dakika 2", 1, 2}, {"dakika # zilizopita", 1, -1}, {"baada ya dakika #", 1, 1}, {"dakika ## zilizopita", 1, -1}, {"baada ya dakika ##", 1, 1}, {"saa 1 iliyopita", 2, -1}, {"baada ya saa 1", 2, 1}, {"saa 2 zilizopita", 2, -2}, {"baada ya saa 2", 2, 2}, {"saa # zilizopita", 2, -1}, {"baada ya saa #", 2, 1}, {"saa ## zilizopita", 2, -1}, {"baada ya saa ##", 2, 1}, {"siku 1 iliyopita", 3, -1}, {"baada ya siku 1", 3, 1}, {"siku 2 zilizopita", 3, -2}, {"baada ya siku 2", 3, 2}, {"siku # zilizopita", 3, -1}, {"baada ya siku #", 3, 1}, {"siku ## zilizopita", 3, -1}, {"baada ya siku ##", 3, 1}, {"wiki 1 iliyopita", 4, -1}, {"baada ya wiki 1", 4, 1}, {"wiki 2 zilizopita", 4, -2}, {"baada ya wiki 2", 4, 2}, {"wiki # zilizopita", 4, -1}, {"baada ya wiki #", 4, 1}, {"wiki ## zilizopita", 4, -1}, {"baada ya wiki ##", 4, 1}, {"mwezi 1 uliopita", 5, -1}, {"baada ya mwezi 1", 5, 1}, {"miezi 2 iliyopita", 5, -2}, {"baada ya miezi 2", 5, 2}, {"miezi # iliyopita", 5, -1}, {"baada ya miezi #", 5, 1}, {"miezi ## iliyopita", 5, -1}, {"baada ya miezi ##", 5, 1}, {"mwaka 1 uliopita", 6, -1}, {"baada ya mwaka 1", 6, 1}, {"miaka 2 iliyopita", 6, -2}, {"baada ya miaka 2", 6, 2}, {"miaka # iliyopita", 6, -1}, {"baada ya miaka #", 6, 1}, {"miaka ## iliyopita", 6, -1}, {"baada ya miaka ##", 6, 1}}},
	{"ta",
		[]nameOf{{"ஜனவரி", 1}, {"ஜன.", 1}, {"பிப்ரவரி", 2}, {"பிப்.", 2}, {"மார்ச்", 3}, {"மார்.", 3}, {"ஏப்ரல்", 4}, {"ஏப்.", 4}, {"மே", 5}, {"ஜூன்", 6}, {"ஜூலை", 7}, {"ஆகஸ்ட்", 8}, {"ஆக.", 8}, {"செப்டம்பர்", 9}, {"செப்.", 9}, {"அக்டோபர்", 10}, {"அக்.", 10}, {"நவம்பர்", 11}, {"நவ.", 11}, {"டிசம்பர்", 12}, {"டிச.", 12}},
		[]nameOf{{"# ஜனவரி, ##", 1}, {"# பிப்ரவரி, ##", 2}, {"# மார்ச், ##", 3}, {"# ஏப்ரல், ##", 4}, {"# மே, ##", 5}, {"# ஜூன், ##", 6}, {"# ஜூலை, ##", 7}, {"# ஆகஸ்ட், ##", 8}, {"# செப்டம்பர், ##", 9}, {"# அக்டோபர், ##", 10}, {"# நவம்பர், ##", 11}, {"# டிசம்பர், ##", 12}},
		[]nameOf{{"திங்கள்", 1}, {"செவ்வாய்", 2}, {"புதன்", 3}, {"வியாழன்", 4}, {"வெள்ளி", 5}, {"சனி", 6}, {"ஞாயிறு", 0}, {"திங்.", 1}, {"செவ்.", 2}, {"புத.", 3}, {"வியா.", 4}, {"வெள்.", 5}, {"ஞாயி.", 0}},
		[]amountOf{{"1 விநாடிக்கு முன்", 0, -1}, {"1 விநாடியில்", 0, 1}, {"2 விநாடிகளுக்கு முன்", 0, -2}, {"2 விநாடிகளில்", 0, 2}, {"# விநாடிகளுக்கு முன்", 0, -1}, {"# விநாடிகளில்", 0, 1}, {"## விநாடிகளுக்கு முன்", 0, -1}, {"## விநாடிகளில்", 0, 1}, {"1 நிமிடத்திற்கு முன்", 1, -1}, {"1 நிமிடத்தில்", 1, 1}, {"2 நிமிடங்களுக்கு முன்", 1, -2}, {"2 நிமிடங்களில்", 1, 2}, {"# நிமிடங்களுக்கு முன்", 1, -1}, {"# நிமிடங்களில்", 1, 1}, {"## நிமிடங்களுக்கு முன்", 1, -1}, {"## நிமிடங்களில்", 1, 1}, {"1 மணிநேரம் முன்", 2, -1}, {"1 மணிநேரத்தில்", 2, 1}, {"2 மணிநேரம் முன்", 2, -2}, {"2 மணிநேரத்தில்", 2, 2}, {"# மணிநேரம் முன்", 2, -1}, {"# மணிநேரத்தில்", 2, 1}, {"## மணிநேரம் முன்", 2, -1}, {"## மணிநேரத்தில்", 2, 1}, {"1 நாளுக்கு முன்", 3, -1}, {"1 நாளில்", 3, 1}, {"2 நாட்களுக்கு முன்", 3, -2}, {"2 நாட்களில்", 3, 2}, {"# நாட்களுக்கு முன்", 3, -1}, {"# நாட்களில்", 3, 1}, {"## நாட்களுக்கு முன்", 3, -1}, {"## நாட்களில்", 3, 1}, {"1 வாரத்தில்", 4, 1}, {"2 வாரங்களுக்கு முன்", 4, -2}, {"2 வாரங்களில்", 4, 2}, {"# வாரங்களுக்கு முன்", 4, -1}, {"# வாரங்களில்", 4, 1}, {"## வாரங்களுக்கு முன்", 4, -1}, {"## வாரங்களில்", 4, 1}, {"1 மாதத்துக்கு முன்", 5, -1}, {"1 மாதத்தில்", 5, 1}, {"2 மாதங்களுக்கு முன்", 5, -2}, {"2 மாதங்களில்", 5, 2}, {"# மாதங்களுக்கு முன்", 5, -1}, {"# மாதங்களில்", 5, 1}, {"## மாதங்களுக்கு முன்", 5, -1}, {"## மாதங்களில்", 5, 1}, {"1 ஆண்டிற்கு முன்", 6, -1}, {"1 ஆண்டில்", 6, 1}, {"2 ஆண்டுகளுக்கு முன்", 6, -2}, {"2 ஆண்டுகளில்", 6, 2}, {"# ஆண்டுகளுக்கு முன்", 6, -1}, {"# ஆண்டுகளில்", 6, 1}, {"## ஆண்டுகளுக்கு முன்", 6, -1}, {"## ஆண்டுகளில்", 6, 1}}},
	{"te",
		[]nameOf{{"జనవరి", 1}, {"జన", 1}, {"ఫిబ్రవరి", 2}, {"ఫిబ్ర", 2}, {"మార్చి", 3}, {"ఏప్రిల్", 4}, {"ఏప్రి", 4}, {"మే", 5}, {"జూన్", 6}, {"జులై", 7}, {"ఆగస్టు", 8}, {"ఆగ", 8}, {"సెప్టెంబర్", 9}, {"సెప్టెం", 9}, {"అక్టోబర్", 10}, {"అక్టో", 10}, {"నవంబర్", 11}, {"నవం", 11}, {"డిసెంబర్", 12}, {"డిసెం", 12}},
		[]nameOf{{"# జనవరి, ##", 1}, {"# ఫిబ్రవరి, ##", 2}, {"# మార్చి, ##", 3}, {"# ఏప్రిల్, ##", 4}, {"# మే, ##", 5}, {"# జూన్, ##", 6}, {"# జులై, ##", 7}, {"# ఆగస్టు, ##", 8}, {"# సెప్టెంబర్, ##", 9}, {"# అక్టోబర్, ##", 10}, {"# నవంబర్, ##", 11}, {"# డిసెంబర్, ##", 12}},
		[]nameOf{{"సోమవారం", 1}, {"మంగళవారం", 2}, {"బుధవారం", 3}, {"గురువారం", 4}, {"శుక్రవారం", 5}, {"శనివారం", 6}, {"ఆదివారం", 0}, {"సోమ", 1}, {"మంగళ", 2}, {"బుధ", 3}, {"గురు", 4}, {"శుక్ర", 5}, {"శని", 6}, {"ఆది", 0}},
		[]amountOf{{"1 సెకను క్రితం", 0, -1}, {"1 సెకనులో", 0, 1}, {"2 సెకన్ల క్రితం", 0, -2}, {"2 సెకన్లలో", 0, 2}, {"# సెకన్ల క్రితం", 0, -1}, {"# సెకన్లలో", 0, 1}, {"## సెకన్ల క్రితం", 0, -1}, {"## సెకన్లలో", 0, 1}, {"1 నిమిషం క్రితం", 1, -1}, {"1 నిమిషంలో", 1, 1}, {"2 నిమిషాల క్రితం", 1, -2}, {"2 నిమిషాల్లో", 1, 2}, {"# నిమిషాల క్రితం", 1, -1}, {"# నిమిషాల్లో", 1, 1}, {"## నిమిషాల క్రితం", 1, -1}, {"## నిమిషాల్లో", 1, 1}, {"1 గంట క్రితం", 2, -1}, {"1 గంటలో", 2, 1}, {"2 గంటల క్రితం", 2, -2}, {"2 గంటల్లో", 2, 2}, {"# గంటల క్రితం", 2, -1}, {"# గంటల్లో", 2, 1}, {"## గంటల క్రితం", 2, -1}, {"## గంటల్లో", 2, 1}, {"1 రోజు క్రితం", 3, -1}, {"1 రోజులో", 3, 1}, {"2 రోజుల క్రితం", 3, -2}, {"2 రోజుల్లో", 3, 2}, {"# రోజుల క్రితం", 3, -1}, {"# రోజుల్లో", 3, 1}, {"## రోజుల క్రితం", 3, -1}, {"## రోజుల్లో", 3, 1}, {"1 వారం క్రితం", 4, -1}, {"1 వారంలో", 4, 1}, {"2 వారాల క్రితం", 4, -2}, {"2 వారాల్లో", 4, 2}, {"# వారాల క్రితం", 4, -1}, {"# వారాల్లో", 4, 1}, {"## వారాల క్రితం", 4, -1}, {"## వారాల్లో", 4, 1}, {"1 నెల క్రితం", 5, -1}, {"1 నెలలో", 5, 1}, {"2 నెలల క్రితం", 5, -2}, {"2 నెలల్లో", 5, 2}, {"# నెలల క్రితం", 5, -1}, {"# నెలల్లో", 5, 1}, {"## నెలల క్రితం", 5, -1}, {"## నెలల్లో", 5, 1}, {"1 సంవత్సరం క్రితం", 6, -1}, {"1 సంవత్సరంలో", 6, 1}, {"2 సంవత్సరాల క్రితం", 6, -2}, {"2 సంవత్సరాల్లో", 6, 2}, {"# సంవత్సరాల క్రితం", 6, -1}, {"# సంవత్సరాల్లో", 6, 1}, {"## సంవత్సరాల క్రితం", 6, -1}, {"## సంవత్సరాల్లో", 6, 1}}},
	{"teo",
		[]nameOf{{"Orara", 1}, {"Rar", 1}, {"Omuk", 2}, {"Muk", 2}, {"Okwamg’", 3}, {"Kwa", 3}, {"Odung’el", 4}, {"Dun", 4}, {"Omaruk", 5}, {"Mar", 5}, {"Omodok’king’ol", 6}, {"Mod", 6}, {"Ojola", 7}, {"Jol", 7}, {"Opedel", 8}, {"Ped", 8}, {"Osokosokoma", 9}, {"Sok", 9}, {"Otibar", 10}, {"Tib", 10}, {"Olabor", 11}, {"Lab", 11}, {"Opoo", 12}, {"Poo", 12}},
		[]nameOf{{"# Orara ##", 1}, {"# Omuk ##", 2}, {"# Okwamg’ ##", 3}, {"# Odung’el ##", 4}, {"# Omaruk ##", 5}, {"# Omodok’king’ol ##", 6}, {"# Ojola ##", 7}, {"# Opedel ##", 8}, {"# Osokosokoma ##", 9}, {"# Otibar ##", 10}, {"# Olabor ##", 11}, {"# Opoo ##", 12}},
		[]nameOf{{"Nakaebarasa", 1}, {"Nakaare", 2}, {"Nakauni", 3}, {"Nakaung’on", 4}, {"Nakakany", 5}, {"Nakasabiti", 6}, {"Nakaejuma", 0}, {"Bar", 1}, {"Aar", 2}, {"Uni", 3}, {"Ung", 4}, {"Kan", 5}, {"Sab", 6}, {"Jum", 0}},
		[]amountOf{}},
	{"th",
		[]nameOf{{"มกราคม", 1}, {"ม.ค.", 1}, {"กุมภาพันธ์", 2}, {"ก.พ.", 2}, {"มีนาคม", 3}, {"มี.ค.", 3}, {"เมษายน", 4}, {"เม.ย.", 4}, {"พฤษภาคม", 5}, {"พ.ค.", 5}, {"มิถุนายน", 6}, {"มิ.ย.", 6}, {"กรกฎาคม", 7}, {"ก.ค.", 7}, {"สิงหาคม", 8}, {"ส.ค.", 8}, {"กันยายน", 9}, {"ก.ย.", 9}, {"ตุลาคม", 10}, {"ต.ค.", 10}, {"พฤศจิกายน", 11}, {"พ.ย.", 11}, {"ธันวาคม", 12}, {"ธ.ค.", 12}},
		[]nameOf{},
		[]nameOf{{"วันจันทร์", 1}, {"วันอังคาร", 2}, {"วันพุธ", 3}, {"วันพฤหัสบดี", 4}, {"วันศุกร์", 5}, {"วันเสาร์", 6}, {"วันอาทิตย์", 0}, {"จันทร์", 1}, {"อังคาร", 2}, {"พุธ", 3}, {"พฤหัส", 4}, {"ศุกร์", 5}, {"เสาร์", 6}, {"อาทิตย์", 0}},
		[]amountOf{{"1 วินาทีที่ผ่านมา", 0, -1}, {"ในอีก 1 วินาที", 0, 1}, {"2 วินาทีที่ผ่านมา", 0, -2}, {"ในอีก 2 วินาที", 0, 2}, {"# วินาทีที่ผ่านมา", 0, -1}, {"ในอีก # วินาที", 0, 1}, {"## วินาทีที่ผ่านมา", 0, -1}, {"ในอีก ## วินาที", 0, 1}, {"1 นาทีที่ผ่านมา", 1, -1}, {"ในอีก 1 นาที", 1, 1}, {"2 นาทีที่ผ่านมา", 1, -2}, {"ในอีก 2 นาที", 1, 2}, {"# นาทีที่ผ่านมา", 1, -1}, {"ในอีก # นาที", 1, 1}, {"## นาทีที่ผ่านมา", 1, -1}, {"ในอีก ## นาที", 1, 1}, {"1 ชั่วโมงที่ผ่านมา", 2, -1}, {"ในอีก 1 ชั่วโมง", 2, 1}, {"2 ชั่วโมงที่ผ่านมา", 2, -2}, {"ในอีก 2 ชั่วโมง", 2, 2}, {"# ชั่วโมงที่ผ่านมา", 2, -1}, {"ในอีก # ชั่วโมง", 2, 1}, {"## ชั่วโมงที่ผ่านมา", 2, -1}, {"ในอีก ## ชั่วโมง", 2, 1}, {"1 วันที่ผ่านมา", 3, -1}, {"ในอีก 1 วัน", 3, 1}, {"2 วันที่ผ่านมา", 3, -2}, {"ในอีก 2 วัน", 3, 2}, {"# วันที่ผ่านมา", 3, -1}, {"ในอีก # วัน", 3, 1}, {"## วันที่ผ่านมา", 3, -1}, {"ในอีก ## วัน", 3, 1}, {"1 สัปดาห์ที่ผ่านมา", 4, -1}, {"ในอีก 1 สัปดาห์", 4, 1}, {"2 สัปดาห์ที่ผ่านมา", 4, -2}, {"ในอีก 2 สัปดาห์", 4, 2}, {"# สัปดาห์ที่ผ่านมา", 4, -1}, {"ในอีก # สัปดาห์", 4, 1}, {"## สัปดาห์ที่ผ่านมา", 4, -1}, {"ในอีก ## สัปดาห์", 4, 1}, {"1 เดือนที่ผ่านมา", 5, -1}, {"ในอีก 1 เดือน", 5, 1}, {"2 เดือนที่ผ่านมา", 5, -2}, {"ในอีก 2 เดือน", 5, 2}, {"# เดือนที่ผ่านมา", 5, -1}, {"ในอีก # เดือน", 5, 1}, {"## เดือนที่ผ่านมา", 5, -1}, {"ในอีก ## เดือน", 5, 1}, {"1 ปีที่แล้ว", 6, -1}, {"ในอีก 1 ปี", 6, 1}, {"2 ปีที่แล้ว", 6, -2}, {"ในอีก 2 ปี", 6, 2}, {"# ปีที่แล้ว", 6, -1}, {"ในอีก # ปี", 6, 1}, {"## ปีที่แล้ว", 6, -1}, {"ในอีก ## ปี", 6, 1}}},
	{"ti",
		[]nameOf{{"ጥሪ", 1}, {"ለካቲት", 2}, {"ለካ", 2}, {"መጋቢት", 3}, {"መጋ", 3}, {"ሚያዝያ", 4}, {"ሚያ", 4}, {"ግን", 5}, {"ሰነ", 6}, {"ሓምለ", 7}, {"ሓም", 7}, {"ነሓሰ", 8}, {"ነሓ", 8}, {"መስከረም", 9}, {"መስ", 9}, {"ጥቅምቲ", 10}, {"ጥቅ", 10}, {"ሕዳር", 11}, {"ሕዳ", 11}, {"ታሕሳስ", 12}, {"ታሕ", 12}},
		[]nameOf{{"ጥሪ #, ##", 1}, {"ለካቲት #, ##", 2}, {"መጋቢት #, ##", 3}, {"ሚያዝያ #, ##", 4}, {"ሰነ #, ##", 6}, {"ሓምለ #, ##", 7}, {"ነሓሰ #, ##", 8}, {"መስከረም #, ##", 9}, {"ጥቅምቲ #, ##", 10}, {"ሕዳር #, ##", 11}, {"ታሕሳስ #, ##", 12}},
		[]nameOf{{"ሰኑይ", 1}, {"ሰሉስ", 2}, {"ረቡዕ", 3}, {"ሓሙስ", 4}, {"ዓርቢ", 5}, {"ቀዳም", 6}, {"ሰንበት", 0}, {"ሰኑ", 1}, {"ሰሉ", 2}, {"ረቡ", 3}, {"ሓሙ", 4}, {"ዓር", 5}, {"ቀዳ", 6}, {"ሰን", 0}},
		[]amountOf{}},
	{"tl",
		[]nameOf{},
		[]nameOf{},
		[]nameOf{{"Lunes", 1}, {"Martes", 2}, {"Miyerkules", 3}, {"Huwebes", 4}, {"Biyernes", 5}, {"Sabado", 6}, {"Linggo", 0}, {"Lun", 1}, {"Miy", 3}, {"Huw", 4}, {"Biy", 5}, {"Sab", 6}, {"Lin", 0}},
		[]amountOf{{"sa 1 segundo", 0, 1}, {"sa 2 segundo", 0, 2}, {"sa # segundo", 0, 1}, {"sa ## segundo", 0, 1}, {"sa 1 minuto", 1, 1}, {"sa 2 minuto", 1, 2}, {"sa # minuto", 1, 1}, {"sa ## minuto", 1, 1}, {"sa 1 oras", 2, 1}, {"sa 2 oras", 2, 2}, {"sa # oras", 2, 1}, {"sa ## oras", 2, 1}, {"sa 1 araw", 3, 1}, {"sa 2 araw", 3, 2}, {"sa # araw", 3, 1}, {"sa ## araw", 3, 1}, {"sa 1 linggo", 4, 1}, {"sa 2 linggo", 4, 2}, {"sa # linggo", 4, 1}, {"sa ## linggo", 4, 1}, {"sa 1 buwan", 5, 1}, {"sa 2 buwan", 5, 2}, {"sa # buwan", 5, 1}, {"sa ## buwan", 5, 1}, {"sa 1 taon", 6, 1}, {"sa 2 taon", 6, 2}, {"sa # taon", 6, 1}, {"sa ## taon", 6, 1}}},
	{"to",
		[]nameOf{{"Sānuali", 1}, {"Sān", 1}, {"Fēpueli", 2}, {"Fēp", 2}, {"Maʻasi", 3}, {"Maʻa", 3}, {"ʻEpeleli", 4}, {"ʻEpe", 4}, {"Mē", 5}, {"Sune", 6}, {"Sun", 6}, {"Siulai", 7}, {"Siu", 7}, {"ʻAokosi", 8}, {"ʻAok", 8}, {"Sēpitema", 9}, {"Sepitema", 9}, {"Sēp", 9}, {"ʻOkatopa", 10}, {"ʻOka", 10}, {"Nōvema", 11}, {"Nōv", 11}, {"Tīsema", 12}, {"Tīs", 12}},
		[]nameOf{{"# Sānuali ##", 1}, {"# Fēpueli ##", 2}, {"# Maʻasi ##", 3}, {"# ʻEpeleli ##", 4}, {"# Mē ##", 5}, {"# Sune ##", 6}, {"# Siulai ##", 7}, {"# ʻAokosi ##", 8}, {"# Sēpitema ##", 9}, {"# ʻOkatopa ##", 10}, {"# Nōvema ##", 11}, {"# Tīsema ##", 12}},
		[]nameOf{{"Mōnite", 1}, {"Tūsite", 2}, {"Pulelulu", 3}, {"Tuʻapulelulu", 4}, {"Falaite", 5}, {"Tokonaki", 6}, {"Sāpate", 0}, {"Mōn", 1}, {"Tūs", 2}, {"Pul", 3}, {"Tuʻa", 4}, {"Fal", 5}, {"Tok", 6}, {"Sāp", 0}},
		[]amountOf{{"sekoni ʻe 1 kuoʻosi", 0, -1}, {"ʻi he sekoni ʻe 1", 0, 1}, {"sekoni ʻe 2 kuoʻosi", 0, -2}, {"ʻi he sekoni ʻe 2", 0, 2}, {"sekoni ʻe # kuoʻosi", 0, -1}, {"ʻi he sekoni ʻe #", 0, 1}, {"sekoni ʻe ## kuoʻosi", 0, -1}, {"ʻi he sekoni ʻe ##", 0, 1}, {"miniti ʻe 1 kuoʻosi", 1, -1}, {"ʻi he miniti ʻe 1", 1, 1}, {"miniti ʻe 2 kuoʻosi", 1, -2}, {"ʻi he miniti ʻe 2", 1, 2}, {"miniti ʻe # kuoʻosi", 1, -1}, {"ʻi he miniti ʻe #", 1, 1}, {"miniti ʻe ## kuoʻosi", 1, -1}, {"ʻi he miniti ʻe ##", 1, 1}, {"houa ʻe 1 kuoʻosi", 2, -1}, {"ʻi he houa ʻe 1", 2, 1}, {"houa ʻe 2 kuoʻosi", 2, -2}, {"ʻi he houa ʻe 2", 2, 2}, {"houa ʻe # kuoʻosi", 2, -1}, {"ʻi he houa ʻe #", 2, 1}, {"houa ʻe ## kuoʻosi", 2, -1}, {"ʻi he houa ʻe ##", 2, 1}, {"ʻaho ʻe 1 kuoʻosi", 3, -1}, {"ʻi he ʻaho ʻe 1", 3, 1}, {"ʻaho ʻe 2 kuoʻosi", 3, -2}, {"ʻi he ʻaho ʻe 2", 3, 2}, {"ʻaho ʻe # kuoʻosi", 3, -1}, {"ʻi he ʻaho ʻe #", 3, 1}, {"ʻaho ʻe ## kuoʻosi", 3, -1}, {"ʻi he ʻaho ʻe ##", 3, 1}, {"uike ʻe 1 kuoʻosi", 4, -1}, {"ʻi he uike ʻe 1", 4, 1}, {"uike ʻe 2 kuoʻosi", 4, -2}, {"ʻi he uike ʻe 2", 4, 2}, {"uike ʻe # kuoʻosi", 4, -1}, {"ʻi he uike ʻe #", 4, 1}, {"uike ʻe ## kuoʻosi", 4, -1}, {"ʻi he uike ʻe ##", 4, 1}, {"māhina ʻe 1 kuoʻosi", 5, -1}, {"ʻi he māhina ʻe 1", 5, 1}, {"māhina ʻe 2 kuoʻosi", 5, -2}, {"ʻi he māhina ʻe 2", 5, 2}, {"māhina ʻe # kuoʻosi", 5, -1}, {"ʻi he māhina ʻe #", 5, 1}, {"māhina ʻe ## kuoʻosi", 5, -1}, {"ʻi he māhina ʻe ##", 5, 1}, {"taʻu ʻe 1 kuoʻosi", 6, -1}, {"ʻi he taʻu ʻe 1", 6, 1}, {"taʻu ʻe 2 kuoʻosi", 6, -2}, {"ʻi he taʻu ʻe 2", 6, 2}, {"taʻu ʻe # kuoʻosi", 6, -1}, {"ʻi he taʻu ʻe #", 6, 1}, {"taʻu ʻe ## kuoʻosi", 6, -1}, {"ʻi he taʻu ʻe ##", 6, 1}}},
	{"tr",
		[]nameOf{{"Ocak", 1}, {"Oca", 1}, {"Şubat", 2}, {"Şub", 2}, {"Mart", 3}, {"Mar", 3}, {"Nisan", 4}, {"Nis", 4}, {"Mayıs", 5}, {"May", 5}, {"Haziran", 6}, {"Haz", 6}, {"Temmuz", 7}, {"Tem", 7}, {"Ağustos", 8}, {"Ağu", 8}, {"Eylül", 9}, {"Eyl", 9}, {"Ekim", 10}, {"Eki", 10}, {"Kasım", 11}, {"Kas", 11}, {"Aralık", 12}, {"Ara", 12}},
		[]nameOf{{"# Ocak ##", 1}, {"# Şubat ##", 2}, {"# Mart ##", 3}, {"# Nisan ##", 4}, {"# Mayıs ##", 5}, {"# Haziran ##", 6}, {"# Temmuz ##", 7}, {"# Ağustos ##", 8}, {"# Eylül ##", 9}, {"# Ekim ##", 10}, {"# Kasım ##", 11}, {"# Aralık ##", 12}},
		[]nameOf{{"Pazartesi", 1}, {"Salı", 2}, {"Çarşamba", 3}, {"Perşembe", 4}, {"Cuma", 5}, {"Cumartesi", 6}, {"Pazar", 0}, {"Pzt", 1}, {"Sal", 2}, {"Çar", 3}, {"Per", 4}, {"Cum", 5}, {"Cmt", 6}, {"Paz", 0}},
		[]amountOf{{"1 saniye önce", 0, -1}, {"1 saniye sonra", 0, 1}, {"2 saniye önce", 0, -2}, {"2 saniye sonra", 0, 2}, {"# saniye önce", 0, -1}, {"# saniye sonra", 0, 1}, {"## saniye önce", 0, -1}, {"## saniye sonra", 0, 1}, {"1 dakika önce", 1, -1}, {"1 dakika sonra", 1, 1}, {"2 dakika önce", 1, -2}, {"2 dakika sonra", 1, 2}, {"# dakika önce", 1, -1}, {"# dakika sonra", 1, 1}, {"## dakika önce", 1, -1}, {"## dakika sonra", 1, 1}, {"1 saat önce", 2, -1}, {"1 saat sonra", 2, 1}, {"2 saat önce", 2, -2}, {"2 saat sonra", 2, 2}, {"# saat önce", 2, -1}, {"# saat sonra", 2, 1}, {"## saat önce", 2, -1}, {"## saat sonra", 2, 1}, {"1 gün önce", 3, -1}, {"1 gün sonra", 3, 1}, {"2 gün önce", 3, -2}, {"2 gün sonra", 3, 2}, {"# gün önce", 3, -1}, {"# gün sonra", 3, 1}, {"## gün önce", 3, -1}, {"## gün sonra", 3, 1}, {"1 hafta önce", 4, -1}, {"1 hafta sonra", 4, 1}, {"2 hafta önce", 4, -2}, {"2 hafta sonra", 4, 2}, {"# hafta önce", 4, -1}, {"# hafta sonra", 4, 1}, {"## hafta önce", 4, -1}, {"## hafta sonra", 4, 1}, {"1 ay önce", 5, -1}, {"1 ay sonra", 5, 1}, {"2 ay önce", 5, -2}, {"2 ay sonra", 5, 2}, {"# ay önce", 5, -1}, {"# ay sonra", 5, 1}, {"## ay önce", 5, -1}, {"## ay sonra", 5, 1}, {"1 yıl önce", 6, -1}, {"1 yıl sonra", 6, 1}, {"2 yıl önce", 6, -2}, {"2 yıl sonra", 6, 2}, {"# yıl önce", 6, -1}, {"# yıl sonra", 6, 1}, {"## yıl önce", 6, -1}, {"## yıl sonra", 6, 1}}},
	{"twq",
		[]nameOf{{"Žanwiye", 1}, {"Žan", 1}, {"Feewiriye", 2}, {"Fee", 2}, {"Marsi", 3}, {"Mar", 3}, {"Awiril", 4}, {"Awi", 4}, {"Me", 5}, {"Žuweŋ", 6}, {"Žuw", 6}, {"Žuyye", 7}, {"Žuy", 7}, {"Ut", 8}, {"Sektanbur", 9}, {"Sek", 9}, {"Oktoobur", 10}, {"Okt", 10}, {"Noowanbur", 11}, {"Noo", 11}, {"Deesanbur", 12}, {"Dee", 12}},
		[]nameOf{{"# Žanwiye ##", 1}, {"# Feewiriye ##", 2}, {"# Marsi ##", 3}, {"# Awiril ##", 4}, {"# Me ##", 5}, {"# Žuweŋ ##", 6}, {"# Žuyye ##", 7}, {"# Ut ##", 8}, {"# Sektanbur ##", 9}, {"# Oktoobur ##", 10}, {"# Noowanbur ##", 11}, {"# Deesanbur ##", 12}},
		[]nameOf{{"Atinni", 1}, {"Atalaata", 2}, {"Alarba", 3}, {"Alhamiisa", 4}, {"Alzuma", 5}, {"Asibti", 6}, {"Alhadi", 0}, {"Ati", 1}, {"Ata", 2}, {"Ala", 3}, {"Alm", 4}, {"Alz", 5}, {"Asi", 6}, {"Alh", 0}},
		[]amountOf{}},
	{"tzm",
		[]nameOf{{"Yennayer", 1}, {"Yen", 1}, {"Yebrayer", 2}, {"Yeb", 2}, {"Mars", 3}, {"Mar", 3}, {"Ibrir", 4}, {"Ibr", 4}, {"Mayyu", 5}, {"May", 5}, {"Yunyu", 6}, {"Yun", 6}, {"Yulyuz", 7}, {"Yul", 7}, {"Ɣuct", 8}, {"Ɣuc", 8}, {"Cutanbir", 9}, {"Cut", 9}, {"Kṭuber", 10}, {"Kṭu", 10}, {"Nwanbir", 11}, {"Nwa", 11}, {"Dujanbir", 12}, {"Duj", 12}},
		[]nameOf{{"# Yennayer ##", 1}, {"# Yebrayer ##", 2}, {"# Mars ##", 3}, {"# Ibrir ##", 4}, {"# Mayyu ##", 5}, {"# Yunyu ##", 6}, {"# Yulyuz ##", 7}, {"# Ɣuct ##", 8}, {"# Cutanbir ##", 9}, {"# Kṭuber ##", 10}, {"# Nwanbir ##", 11}, {"# Dujanbir ##", 12}},
		[]nameOf{{"Aynas", 1}, {"Asinas", 2}, {"Akras", 3}, {"Akwas", 4}, {"Asimwas", 5}, {"Asiḍyas", 6}, {"Asamas", 0}, {"Ayn", 1}, {"Asn", 2}, {"Akr", 3}, {"Akw", 4}, {"Asm", 5}, {"Asḍ", 6}, {"Asa", 0}},
		[]amountOf{}},
	{"ug",
		[]nameOf{{"يانۋار", 1}, {"فېۋرال", 2}, {"مارت", 3}, {"ئاپرېل", 4}, {"ماي", 5}, {"ئىيۇن", 6}, {"ئىيۇل", 7}, {"ئاۋغۇست", 8}, {"سېنتەبىر", 9}, {"ئۆكتەبىر", 10}, {"نويابىر", 11}, {"دېكابىر", 12}},
		[]nameOf{{"#-يانۋار، ##", 1}, {"#-فېۋرال، ##", 2}, {"#-مارت، ##", 3}, {"#-ئاپرېل، ##", 4}, {"#-ماي، ##", 5}, {"#-ئىيۇن، ##", 6}, {"#-ئىيۇل، ##", 7}, {"#-ئاۋغۇست، ##", 8}, {"#-سېنتەبىر، ##", 9}, {"#-ئۆكتەبىر، ##", 10}, {"#-نويابىر، ##", 11}, {"#-دېكابىر، ##", 12}},
		[]nameOf{{"دۈشەنبە", 1}, {"سەيشەنبە", 2}, {"چارشەنبە", 3}, {"پەيشەنبە", 4}, {"جۈمە", 5}, {"شەنبە", 6}, {"يەكشەنبە", 0}, {"دۈ", 1}, {"سە", 2}, {"چا", 3}, {"پە", 4}, {"جۈ", 5}, {"شە", 6}, {"يە", 0}},
		[]amountOf{{"1 سېكۇنت ئىلگىرى", 0, -1}, {"1 سېكۇنتتىن كېيىن", 0, 1}, {"2 سېكۇنت ئىلگىرى", 0, -2}, {"2 سېكۇنتتىن كېيىن", 0, 2}, {"# سېكۇنت ئىلگىرى", 0, -1}, {"# سېكۇنتتىن كېيىن", 0, 1}, {"## سېكۇنت ئىلگىرى", 0, -1}, {"## سېكۇنتتىن كېيىن", 0, 1}, {"1 مىنۇت ئىلگىرى", 1, -1}, {"1 مىنۇتتىن كېيىن", 1, 1}, {"2 مىنۇت ئىلگىرى", 1, -2}, {"2 مىنۇتتىن كېيىن", 1, 2}, {"# مىنۇت ئىلگىرى", 1, -1}, {"# مىنۇتتىن كېيىن", 1, 1}, {"## مىنۇت ئىلگىرى", 1, -1}, {"## مىنۇتتىن كېيىن", 1, 1}, {"1 سائەت ئىلگىرى", 2, -1}, {"1 سائەتتىن كېيىن", 2, 1}, {"2 سائەت ئىلگىرى", 2, -2}, {"2 سائەتتىن كېيىن", 2, 2}, {"# سائەت ئىلگىرى", 2, -1}, {"# سائەتتىن كېيىن", 2, 1}, {"## سائەت ئىلگىرى", 2, -1}, {"## سائەتتىن كېيىن", 2, 1}, {"1 كۈن ئىلگىرى", 3, -1}, {"1 كۈندىن كېيىن", 3, 1}, {"2 كۈن ئىلگىرى", 3, -2}, {"2 كۈندىن كېيىن", 3, 2}, {"# كۈن ئىلگىرى", 3, -1}, {"# كۈندىن كېيىن", 3, 1}, {"## كۈن ئىلگىرى", 3, -1}, {"## كۈندىن كېيىن", 3, 1}, {"1 ھەپتە ئىلگىرى", 4, -1}, {"1 ھەپتىدىن كېيىن", 4, 1}, {"2 ھەپتە ئىلگىرى", 4, -2}, {"2 ھەپتىدىن كېيىن", 4, 2}, {"# ھەپتە ئىلگىرى", 4, -1}, {"# ھەپتىدىن كېيىن", 4, 1}, {"## ھەپتە ئىلگىرى", 4, -1}, {"## ھەپتىدىن كېيىن", 4, 1}, {"1 ئاي ئىلگىرى", 5, -1}, {"1 ئايدىن كېيىن", 5, 1}, {"2 ئاي ئىلگىرى", 5, -2}, {"2 ئايدىن كېيىن", 5, 2}, {"# ئاي ئىلگىرى", 5, -1}, {"# ئايدىن كېيىن", 5, 1}, {"## ئاي ئىلگىرى", 5, -1}, {"## ئايدىن كېيىن", 5, 1}, {"1 يىل ئىلگىرى", 6, -1}, {"1 يىلدىن كېيىن", 6, 1}, {"2 يىل ئىلگىرى", 6, -2}, {"2 يىلدىن كېيىن", 6, 2}, {"# يىل ئىلگىرى", 6, -1}, {"# يىلدىن كېيىن", 6, 1}, {"## يىل ئىلگىرى", 6, -1}, {"## يىلدىن كېيىن", 6, 1}}},
	{"uk",
		[]nameOf{{"січня", 1}, {"січень", 1}, {"січ.", 1}, {"лютого", 2}, {"лютий", 2}, {"лют.", 2}, {"березня", 3}, {"березень", 3}, {"бер.", 3}, {"квітня", 4}, {"квітень", 4}, {"квіт.", 4}, {"травня", 5}, {"травень", 5}, {"трав.", 5}, {"червня", 6}, {"червень", 6}, {"черв.", 6}, {"липня", 7}, {"липень", 7}, {"лип.", 7}, {"серпня", 8}, {"серпень", 8}, {"серп.", 8}, {"вересня", 9}, {"вересень", 9}, {"вер.", 9}, {"жовтня", 10}, {"жовтень", 10}, {"жовт.", 10}, {"листопада", 11}, {"листопад", 11}, {"лист.", 11}, {"грудня", 12}, {"грудень", 12}, {"груд.", 12}},
		[]nameOf{{"# січня ## р.", 1}, {"# лютого ## р.", 2}, {"# березня ## р.", 3}, {"# квітня ## р.", 4}, {"# травня ## р.", 5}, {"# червня ## р.", 6}, {"# липня ## р.", 7}, {"# серпня ## р.", 8}, {"# вересня ## р.", 9}, {"# жовтня ## р.", 10}, {"# листопада ## р.", 11}, {"# грудня ## р.", 12}},
		[]nameOf{{"понеділок", 1}, {"вівторок", 2}, {"середа", 3}, {"четвер", 4}, {"пʼятниця", 5}, {"субота", 6}, {"неділя", 0}, {"пн", 1}, {"вт", 2}, {"ср", 3}, {"чт", 4}, {"пт", 5}, {"сб", 6}, {"нд", 0}},
		[]amountOf{{"1 секунду тому", 0, -1}, {"через 1 секунду", 0, 1}, {"2 секунди тому", 0, -2}, {"через 2 секунди", 0, 2}, {"# секунд тому", 0, -1}, {"через # секунд", 0, 1}, {"## секунд тому", 0, -1}, {"через ## секунд", 0, 1}, {"1 хвилину тому", 1, -1}, {"через 1 хвилину", 1, 1}, {"2 хвилини тому", 1, -2}, {"через 2 хвилини", 1, 2}, {"# хвилин тому", 1, -1}, {"через # хвилин", 1, 1}, {"## хвилин тому", 1, -1}, {"через ## хвилин", 1, 1}, {"1 годину тому", 2, -1}, {"через 1 годину", 2, 1}, {"2 години тому", 2, -2}, {"через 2 години", 2, 2}, {"# годин тому", 2, -1}, {"через # годин", 2, 1}, {"## годин тому", 2, -1}, {"через ## годин", 2, 1}, {"1 день тому", 3, -1}, {"через 1 день", 3, 1}, {"2 дні тому", 3, -2}, {"через 2 дні", 3, 2}, {"# днів тому", 3, -1}, {"через # днів", 3, 1}, {"## днів тому", 3, -1}, {"через ## днів", 3, 1}, {"1 тиждень тому", 4, -1}, {"через 1 тиждень", 4, 1}, {"2 тижні тому", 4, -2}, {"через 2 тижні", 4, 2}, {"# тижнів тому", 4, -1}, {"через # тижнів", 4, 1}, {"## тижнів тому", 4, -1}, {"через ## тижнів", 4, 1}, {"1 місяць тому", 5, -1}, {"через 1 місяць", 5, 1}, {"2 місяці тому", 5, -2}, {"через 2 місяці", 5, 2}, {"# місяців тому", 5, -1}, {"через # місяців", 5, 1}, {"## місяців тому", 5, -1}, {"через ## місяців", 5, 1}, {"1 рік тому", 6, -1}, {"через 1 рік", 6, 1}, {"2 роки тому", 6, -2}, {"через 2 роки", 6, 2}, {"# років тому", 6, -1}, {"через # років", 6, 1}, {"## років тому", 6, -1}, {"через ## років", 6, 1}}},
	{"ur",
		[]nameOf{{"جنوری", 1}, {"فروری", 2}, {"مارچ", 3}, {"اپریل", 4}, {"مئی", 5}, {"جون", 6}, {"جولائی", 7}, {"اگست", 8}, {"ستمبر", 9}, {"اکتوبر", 10}, {"نومبر", 11}, {"دسمبر", 12}},
		[]nameOf{{"# جنوری، ##", 1}, {"# فروری، ##", 2}, {"# مارچ، ##", 3}, {"# اپریل، ##", 4}, {"# مئی، ##", 5}, {"# جون، ##", 6}, {"# جولائی، ##", 7}, {"# اگست، ##", 8}, {"# ستمبر، ##", 9}, {"# اکتوبر، ##", 10}, {"# نومبر، ##", 11}, {"# دسمبر، ##", 12}},
		[]nameOf{{"منگل", 2}, {"بدھ", 3}, {"جمعرات", 4}, {"جمعہ", 5}, {"ہفتہ", 6}, {"اتوار", 0}},
		[]amountOf{{"1 سیکنڈ پہلے", 0, -1}, {"1 سیکنڈ میں", 0, 1}, {"2 سیکنڈ پہلے", 0, -2}, {"2 سیکنڈ میں", 0, 2}, {"# سیکنڈ پہلے", 0, -1}, {"# سیکنڈ میں", 0, 1}, {"## سیکنڈ پہلے", 0, -1}, {"## سیکنڈ میں", 0, 1}, {"1 منٹ پہلے", 1, -1}, {"1 منٹ میں", 1, 1}, {"2 منٹ پہلے", 1, -2}, {"2 منٹ میں", 1, 2}, {"# منٹ پہلے", 1, -1}, {"# منٹ میں", 1, 1}, {"## منٹ پہلے", 1, -1}, {"## منٹ میں", 1, 1}, {"1 گھنٹہ پہلے", 2, -1}, {"1 گھنٹے میں", 2, 1}, {"2 گھنٹے پہلے", 2, -2}, {"2 گھنٹے میں", 2, 2}, {"# گھنٹے پہلے", 2, -1}, {"# گھنٹے میں", 2, 1}, {"## گھنٹے پہلے", 2, -1}, {"## گھنٹے میں", 2, 1}, {"1 دن پہلے", 3, -1}, {"1 دن میں", 3, 1}, {"2 دنوں پہلے", 3, -2}, {"2 دنوں میں", 3, 2}, {"# دنوں پہلے", 3, -1}, {"# دنوں میں", 3, 1}, {"## دنوں پہلے", 3, -1}, {"## دنوں میں", 3, 1}, {"1 ہفتہ پہلے", 4, -1}, {"1 ہفتہ میں", 4, 1}, {"2 ہفتے پہلے", 4, -2}, {"2 ہفتے میں", 4, 2}, {"# ہفتے پہلے", 4, -1}, {"# ہفتے میں", 4, 1}, {"## ہفتے پہلے", 4, -1}, {"## ہفتے میں", 4, 1}, {"1 مہینہ پہلے", 5, -1}, {"1 مہینہ میں", 5, 1}, {"2 مہینے پہلے", 5, -2}, {"2 مہینے میں", 5, 2}, {"# مہینے پہلے", 5, -1}, {"# مہینے میں", 5, 1}, {"## مہینے پہلے", 5, -1}, {"## مہینے میں", 5, 1}, {"1 سال پہلے", 6, -1}, {"1 سال میں", 6, 1}, {"2 سال پہلے", 6, -2}, {"2 سال میں", 6, 2}, {"# سال پہلے", 6, -1}, {"# سال میں", 6, 1}, {"## سال پہلے", 6, -1}, {"## سال میں", 6, 1}}},
	{"uz",
		[]nameOf{{"yanvar", 1}, {"Yanvar", 1}, {"yan", 1}, {"fevral", 2}, {"Fevral", 2}, {"fev", 2}, {"mart", 3}, {"Mart", 3}, {"mar", 3}, {"aprel", 4}, {"Aprel", 4}, {"apr", 4}, {"may", 5}, {"May", 5}, {"iyun", 6}, {"Iyun", 6}, {"iyn", 6}, {"iyul", 7}, {"Iyul", 7}, {"iyl", 7}, {"avgust", 8}, {"Avgust", 8}, {"avg", 8}, {"sentabr", 9}, {"Sentabr", 9}, {"sen", 9}, {"oktabr", 10}, {"Oktabr", 10}, {"okt", 10}, {"noyabr", 11}, {"Noyabr", 11}, {"noy", 11}, {"dekabr", 12}, {"Dekabr", 12}, {"dek", 12}},
		[]nameOf{{"#-yanvar, ##", 1}, {"#-fevral, ##", 2}, {"#-mart, ##", 3}, {"#-aprel, ##", 4}, {"#-may, ##", 5}, {"#-iyun, ##", 6}, {"#-iyul, ##", 7}, {"#-avgust, ##", 8}, {"#-sentabr, ##", 9}, {"#-oktabr, ##", 10}, {"#-noyabr, ##", 11}, {"#-dekabr, ##", 12}},
		[]nameOf{{"dushanba", 1}, {"seshanba", 2}, {"chorshanba", 3}, {"payshanba", 4}, {"juma", 5}, {"shanba", 6}, {"yakshanba", 0}, {"Dush", 1}, {"Sesh", 2}, {"Chor", 3}, {"Pay", 4}, {"Jum", 5}, {"Shan", 6}, {"Yak", 0}},
		[]amountOf{{"1 soniya oldin", 0, -1}, {"1 soniyadan keyin", 0, 1}, {"2 soniya oldin", 0, -2}, {"2 soniyadan keyin", 0, 2}, {"# soniya oldin", 0, -1}, {"# soniyadan keyin", 0, 1}, {"## soniya oldin", 0, -1}, {"## soniyadan keyin", 0, 1}, {"1 daqiqa oldin", 1, -1}, {"1 daqiqadan keyin", 1, 1}, {"2 daqiqa oldin", 1, -2}, {"2 daqiqadan keyin", 1, 2}, {"# daqiqa oldin", 1, -1}, {"# daqiqadan keyin", 1, 1}, {"## daqiqa oldin", 1, -1}, {"## daqiqadan keyin", 1, 1}, {"1 soat oldin", 2, -1}, {"1 soatdan keyin", 2, 1}, {"2 soat oldin", 2, -2}, {"2 soatdan keyin", 2, 2}, {"# soat oldin", 2, -1}, {"# soatdan keyin", 2, 1}, {"## soat oldin", 2, -1}, {"## soatdan keyin", 2, 1}, {"1 kun oldin", 3, -1}, {"1 kundan keyin", 3, 1}, {"2 kun oldin", 3, -2}, {"2 kundan keyin", 3, 2}, {"# kun oldin", 3, -1}, {"# kundan keyin", 3, 1}, {"## kun oldin", 3, -1}, {"## kundan keyin", 3, 1}, {"1 hafta oldin", 4, -1}, {"1 haftadan keyin", 4, 1}, {"2 hafta oldin", 4, -2}, {"2 haftadan keyin", 4, 2}, {"# hafta oldin", 4, -1}, {"# haftadan keyin", 4, 1}, {"## hafta oldin", 4, -1}, {"## haftadan keyin", 4, 1}, {"1 oy oldin", 5, -1}, {"1 oydan keyin", 5, 1}, {"2 oy oldin", 5, -2}, {"2 oydan keyin", 5, 2}, {"# oy oldin", 5, -1}, {"# oydan keyin", 5, 1}, {"## oy oldin", 5, -1}, {"## oydan keyin", 5, 1}, {"1 yil oldin", 6, -1}, {"1 yildan keyin", 6, 1}, {"2 yil oldin", 6, -2}, {"2 yildan keyin", 6, 2}, {"# yil oldin", 6, -1}, {"# yildan keyin", 6, 1}, {"## yil oldin", 6, -1}, {"## yildan keyin", 6, 1}}},
	{"uz-Arab",
		[]nameOf{{"جنوری", 1}, {"جنو", 1}, {"فبروری", 2}, {"فبر", 2}, {"مارچ", 3}, {"مار", 3}, {"اپریل", 4}, {"اپر", 4}, {"می", 5}, {"جون", 6}, {"جولای", 7}, {"جول", 7}, {"اگست", 8}, {"اگس", 8}, {"سپتمبر", 9}, {"سپت", 9}, {"اکتوبر", 10}, {"اکت", 10}, {"نومبر", 11}, {"نوم", 11}, {"دسمبر", 12}, {"دسم", 12}},
		[]nameOf{{"## جنوری #", 1}, {"## فبروری #", 2}, {"## مارچ #", 3}, {"## اپریل #", 4}, {"## می #", 5}, {"## جون #", 6}, {"## جولای #", 7}, {"## اگست #", 8}, {"## سپتمبر #", 9}, {"## اکتوبر #", 10}, {"## نومبر #", 11}, {"## دسمبر #", 12}},
		[]nameOf{{"دوشنبه", 1}, {"سه\u200cشنبه", 2}, {"چهارشنبه", 3}, {"پنجشنبه", 4}, {"جمعه", 5}, {"شنبه", 6}, {"یکشنبه", 0}, {"د.", 1}, {"س.", 2}, {"چ.", 3}, {"پ.", 4}, {"ج.", 5}, {"ش.", 6}, {"ی.", 0}},
		[]amountOf{}},
	{"uz-Cyrl",
		[]nameOf{{"январ", 1}, {"янв", 1}, {"феврал", 2}, {"фев", 2}, {"март", 3}, {"мар", 3}, {"апрел", 4}, {"апр", 4}, {"май", 5}, {"июн", 6}, {"июл", 7}, {"август", 8}, {"авг", 8}, {"сентябр", 9}, {"сен", 9}, {"октябр", 10}, {"окт", 10}, {"ноябр", 11}, {"ноя", 11}, {"декабр", 12}, {"дек", 12}},
		[]nameOf{{"# январ, ##", 1}, {"# феврал, ##", 2}, {"# март, ##", 3}, {"# апрел, ##", 4}, {"# май, ##", 5}, {"# июн, ##", 6}, {"# июл, ##", 7}, {"# август, ##", 8}, {"# сентябр, ##", 9}, {"# октябр, ##", 10}, {"# ноябр, ##", 11}, {"# декабр, ##", 12}},
		[]nameOf{{"душанба", 1}, {"сешанба", 2}, {"чоршанба", 3}, {"пайшанба", 4}, {"жума", 5}, {"шанба", 6}, {"якшанба", 0}, {"душ", 1}, {"сеш", 2}, {"чор", 3}, {"пай", 4}, {"жум", 5}, {"шан", 6}, {"якш", 0}},
		[]amountOf{{"1 сония олдин", 0, -1}, {"1 сониядан сўнг", 0, 1}, {"2 сония олдин", 0, -2}, {"2 сониядан сўнг", 0, 2}, {"# сония олдин", 0, -1}, {"# сониядан сўнг", 0, 1}, {"## сония олдин", 0, -1}, {"## сониядан сўнг", 0, 1}, {"1 дақиқа олдин", 1, -1}, {"1 дақиқадан сўнг", 1, 1}, {"2 дақиқа олдин", 1, -2}, {"2 дақиқадан сўнг", 1, 2}, {"# дақиқа олдин", 1, -1}, {"# дақиқадан сўнг", 1, 1}, {"## дақиқа олдин", 1, -1}, {"## дақиқадан сўнг", 1, 1}, {"1 соат олдин", 2, -1}, {"1 соатдан сўнг", 2, 1}, {"2 соат олдин", 2, -2}, {"2 соатдан сўнг", 2, 2}, {"# соат олдин", 2, -1}, {"# соатдан сўнг", 2, 1}, {"## соат олдин", 2, -1}, {"## соатдан сўнг", 2, 1}, {"1 кун олдин", 3, -1}, {"1 кундан сўнг", 3, 1}, {"2 кун олдин", 3, -2}, {"2 кундан сўнг", 3, 2}, {"# кун олдин", 3, -1}, {"# кундан сўнг", 3, 1}, {"## кун олдин", 3, -1}, {"## кундан сўнг", 3, 1}, {"1 ҳафта олдин", 4, -1}, {"1 ҳафтадан сўнг", 4, 1}, {"2 ҳафта олдин", 4, -2}, {"2 ҳафтадан сўнг", 4, 2}, {"# ҳафта олдин", 4, -1}, {"# ҳафтадан сўнг", 4, 1}, {"## ҳафта олдин", 4, -1}, {"## ҳафтадан сўнг", 4, 1}, {"1 ой аввал", 5, -1}, {"1 ойдан сўнг", 5, 1}, {"2 ой аввал", 5, -2}, {"2 ойдан сўнг", 5, 2}, {"# ой аввал", 5, -1}, {"# ойдан сўнг", 5, 1}, {"## ой аввал", 5, -1}, {"## ойдан сўнг", 5, 1}, {"1 йил аввал", 6, -1}, {"1 йилдан сўнг", 6, 1}, {"2 йил аввал", 6, -2}, {"2 йилдан сўнг", 6, 2}, {"# йил аввал", 6, -1}, {"# йилдан сўнг", 6, 1}, {"## йил аввал", 6, -1}, {"## йилдан сўнг", 6, 1}}},
	{"uz-Latn",
		[]nameOf{{"yanvar", 1}, {"Yanvar", 1}, {"yan", 1}, {"fevral", 2}, {"Fevral", 2}, {"fev", 2}, {"mart", 3}, {"Mart", 3}, {"mar", 3}, {"aprel", 4}, {"Aprel", 4}, {"apr", 4}, {"may", 5}, {"May", 5}, {"iyun", 6}, {"Iyun", 6}, {"iyn", 6}, {"iyul", 7}, {"Iyul", 7}, {"iyl", 7}, {"avgust", 8}, {"Avgust", 8}, {"avg", 8}, {"sentabr", 9}, {"Sentabr", 9}, {"sen", 9}, {"oktabr", 10}, {"Oktabr", 10}, {"okt", 10}, {"noyabr", 11}, {"Noyabr", 11}, {"noy", 11}, {"dekabr", 12}, {"Dekabr", 12}, {"dek", 12}},
		[]nameOf{{"#-yanvar, ##", 1}, {"#-fevral, ##", 2}, {"#-mart, ##", 3}, {"#-aprel, ##", 4}, {"#-may, ##", 5}, {"#-iyun, ##", 6}, {"#-iyul, ##", 7}, {"#-avgust, ##", 8}, {"#-sentabr, ##", 9}, {"#-oktabr, ##", 10}, {"#-noyabr, ##", 11}, {"#-dekabr, ##", 12}},
		[]nameOf{{"dushanba", 1}, {"seshanba", 2}, {"chorshanba", 3}, {"payshanba", 4}, {"juma", 5}, {"shanba", 6}, {"yakshanba", 0}, {"Dush", 1}, {"Sesh", 2}, {"Chor", 3}, {"Pay", 4}, {"Jum", 5}, {"Shan", 6}, {"Yak", 0}},
		[]amountOf{{"1 soniya oldin", 0, -1}, {"1 soniyadan keyin", 0, 1}, {"2 soniya oldin", 0, -2}, {"2 soniyadan keyin", 0, 2}, {"# soniya oldin", 0, -1}, {"# soniyadan keyin", 0, 1}, {"## soniya oldin", 0, -1}, {"## soniyadan keyin", 0, 1}, {"1 daqiqa oldin", 1, -1}, {"1 daqiqadan keyin", 1, 1}, {"2 daqiqa oldin", 1, -2}, {"2 daqiqadan keyin", 1, 2}, {"# daqiqa oldin", 1, -1}, {"# daqiqadan keyin", 1, 1}, {"## daqiqa oldin", 1, -1}, {"## daqiqadan keyin", 1, 1}, {"1 soat oldin", 2, -1}, {"1 soatdan keyin", 2, 1}, {"2 soat oldin", 2, -2}, {"2 soatdan keyin", 2, 2}, {"# soat oldin", 2, -1}, {"# soatdan keyin", 2, 1}, {"## soat oldin", 2, -1}, {"## soatdan keyin", 2, 1}, {"1 kun oldin", 3, -1}, {"1 kundan keyin", 3, 1}, {"2 kun oldin", 3, -2}, {"2 kundan keyin", 3, 2}, {"# kun oldin", 3, -1}, {"# kundan keyin", 3, 1}, {"## kun oldin", 3, -1}, {"## kundan keyin", 3, 1}, {"1 hafta oldin", 4, -1}, {"1 haftadan keyin", 4, 1}, {"2 hafta oldin", 4, -2}, {"2 haftadan keyin", 4, 2}, {"# hafta oldin", 4, -1}, {"# haftadan keyin", 4, 1}, {"## hafta oldin", 4, -1}, {"## haftadan keyin", 4, 1}, {"1 oy oldin", 5, -1}, {"1 oydan keyin", 5, 1}, {"2 oy oldin", 5, -2}, {"2 oydan keyin", 5, 2}, {"# oy oldin", 5, -1}, {"# oydan keyin", 5, 1}, {"## oy oldin", 5, -1}, {"## oydan keyin", 5, 1}, {"1 yil oldin", 6, -1}, {"1 yildan keyin", 6, 1}, {"2 yil oldin", 6, -2}, {"2 yildan keyin", 6, 2}, {"# yil oldin", 6, -1}, {"# yildan keyin", 6, 1}, {"## yil oldin", 6, -1}, {"## yildan keyin", 6, 1}}},
	{"vi",
		[]nameOf{{"tháng 1", 1}, {"Tháng 1", 1}, {"thg 1", 1}, {"tháng 2", 2}, {"Tháng 2", 2}, {"thg 2", 2}, {"tháng 3", 3}, {"Tháng 3", 3}, {"thg 3", 3}, {"tháng 4", 4}, {"Tháng 4", 4}, {"thg 4", 4}, {"tháng 5", 5}, {"Tháng 5", 5}, {"thg 5", 5}, {"tháng 6", 6}, {"Tháng 6", 6}, {"thg 6", 6}, {"tháng 7", 7}, {"Tháng 7", 7}, {"thg 7", 7}, {"tháng 8", 8}, {"Tháng 8", 8}, {"thg 8", 8}, {"tháng 9", 9}, {"Tháng 9", 9}, {"thg 9", 9}, {"tháng 10", 10}, {"Tháng 10", 10}, {"thg 10", 10}, {"tháng 11", 11}, {"Tháng 11", 11}, {"thg 11", 11}, {"tháng 12", 12}, {"Tháng 12", 12}, {"thg 12", 12}},
		[]nameOf{{"# tháng 1, ##", 1}, {"# tháng 2, ##", 2}, {"# tháng 3, ##", 3}, {"# tháng 4, ##", 4}, {"# tháng 5, ##", 5}, {"# tháng 6, ##", 6}, {"# tháng 7, ##", 7}, {"# tháng 8, ##", 8}, {"# tháng 9, ##", 9}, {"# tháng 10, ##", 10}, {"# tháng 11, ##", 11}, {"# tháng 12, ##", 12}},
		[]nameOf{{"Thứ Hai", 1}, {"Thứ Ba", 2}, {"Thứ Tư", 3}, {"Thứ Năm", 4}, {"Thứ Sáu", 5}, {"Thứ Bảy", 6}, {"Chủ Nhật", 0}, {"Thứ 2", 1}, {"Thứ 3", 2}, {"Thứ 4", 3}, {"Thứ 5", 4}, {"Thứ 6", 5}, {"Thứ 7", 6}, {"CN", 0}},
		[]amountOf{{"1 giây trước", 0, -1}, {"sau 1 giây nữa", 0, 1}, {"2 giây trước", 0, -2}, {"sau 2 giây nữa", 0, 2}, {"# giây trước", 0, -1}, {"sau # giây nữa", 0, 1}, {"## giây trước", 0, -1}, {"sau ## giây nữa", 0, 1}, {"1 phút trước", 1, -1}, {"sau 1 phút nữa", 1, 1}, {"2 phút trước", 1, -2}, {"sau 2 phút nữa", 1, 2}, {"# phút trước", 1, -1}, {"sau # phút nữa", 1, 1}, {"## phút trước", 1, -1}, {"sau ## phút nữa", 1, 1}, {"1 giờ trước", 2, -1}, {"sau 1 giờ nữa", 2, 1}, {"2 giờ trước", 2, -2}, {"sau 2 giờ nữa", 2, 2}, {"# giờ trước", 2, -1}, {"sau # giờ nữa", 2, 1}, {"## giờ trước", 2, -1}, {"sau ## giờ nữa", 2, 1}, {"1 ngày trước", 3, -1}, {"sau 1 ngày nữa", 3, 1}, {"2 ngày trước", 3, -2}, {"sau 2 ngày nữa", 3, 2}, {"# ngày trước", 3, -1}, {"sau # ngày nữa", 3, 1}, {"## ngày trước", 3, -1}, {"sau ## ngày nữa", 3, 1}, {"1 tuần trước", 4, -1}, {"sau 1 tuần nữa", 4, 1}, {"2 tuần trước", 4, -2}, {"sau 2 tuần nữa", 4, 2}, {"# tuần trước", 4, -1}, {"sau # tuần nữa", 4, 1}, {"## tuần trước", 4, -1}, {"sau ## tuần nữa", 4, 1}, {"1 tháng trước", 5, -1}, {"sau 1 tháng nữa", 5, 1}, {"2 tháng trước", 5, -2}, {"sau 2 tháng nữa", 5, 2}, {"# tháng trước", 5, -1}, {"sau # tháng nữa", 5, 1}, {"## tháng trước", 5, -1}, {"sau ## tháng nữa", 5, 1}, {"1 năm trước", 6, -1}, {"sau 1 năm nữa", 6, 1}, {"2 năm trước", 6, -2}, {"sau 2 năm nữa", 6, 2}, {"# năm trước", 6, -1}, {"sau # năm nữa", 6, 1}, {"## năm trước", 6, -1}, {"sau ## năm nữa", 6, 1}}},
	{"vun",
		[]nameOf{{"Januari", 1}, {"Jan", 1}, {"Februari", 2}, {"Feb", 2}, {"Machi", 3}, {"Mac", 3}, {"Aprilyi", 4}, {"Apr", 4}, {"Mei", 5}, {"Junyi", 6}, {"Jun", 6}, {"Julyai", 7}, {"Jul", 7}, {"Agusti", 8}, {"Ago", 8}, {"Septemba", 9}, {"Sep", 9}, {"Oktoba", 10}, {"Okt", 10}, {"Novemba", 11}, {"Nov", 11}, {"Desemba", 12}, {"Des", 12}},
		[]nameOf{{"# Januari ##", 1}, {"# Februari ##", 2}, {"# Machi ##", 3}, {"# Aprilyi ##", 4}, {"# Mei ##", 5}, {"# Junyi ##", 6}, {"# Julyai ##", 7}, {"# Agusti ##", 8}, {"# Septemba ##", 9}, {"# Oktoba ##", 10}, {"# Novemba ##", 11}, {"# Desemba ##", 12}},
		[]nameOf{{"Jumatatuu", 1}, {"Jumanne", 2}, {"Jumatanu", 3}, {"Alhamisi", 4}, {"Ijumaa", 5}, {"Jumamosi", 6}, {"Jumapilyi", 0}, {"Jtt", 1}, {"Jnn", 2}, {"Jtn", 3}, {"Alh", 4}, {"Iju", 5}, {"Jmo", 6}, {"Jpi", 0}},
		[]amountOf{}},
	{"wae",
		[]nameOf{{"Jenner", 1}, {"Jen", 1}, {"Hornig", 2}, {"Hor", 2}, {"Märze", 3}, {"Mär", 3}, {"Abrille", 4}, {"Abr", 4}, {"Meije", 5}, {"Mei", 5}, {"Bráčet", 6}, {"Brá", 6}, {"Heiwet", 7}, {"Hei", 7}, {"Öigšte", 8}, {"Öig", 8}, {"Herbštmánet", 9}, {"Her", 9}, {"Wímánet", 10}, {"Wím", 10}, {"Wintermánet", 11}, {"Win", 11}, {"Chrištmánet", 12}, {"Chr", 12}},
		[]nameOf{{"#. Jenner ##", 1}, {"#. Hornig ##", 2}, {"#. Märze ##", 3}, {"#. Abrille ##", 4}, {"#. Meije ##", 5}, {"#. Bráčet ##", 6}, {"#. Heiwet ##", 7}, {"#. Öigšte ##", 8}, {"#. Herbštmánet ##", 9}, {"#. Wímánet ##", 10}, {"#. Wintermánet ##", 11}, {"#. Chrištmánet ##", 12}},
		[]nameOf{{"Mäntag", 1}, {"Zištag", 2}, {"Mittwuč", 3}, {"Fróntag", 4}, {"Fritag", 5}, {"Samštag", 6}, {"Sunntag", 0}, {"Män", 1}, {"Ziš", 2}, {"Mit", 3}, {"Fró", 4}, {"Fri", 5}, {"Sam", 6}, {"Sun", 0}},
		[]amountOf{{"vor 1 sekund", 0, -1}, {"i 1 sekund", 0, 1}, {"vor 2 sekunde", 0, -2}, {"i 2 sekunde", 0, 2}, {"vor # sekunde", 0, -1}, {"i # sekunde", 0, 1}, {"vor ## sekunde", 0, -1}, {"i ## sekunde", 0, 1}, {"vor 1 minüta", 1, -1}, {"i 1 minüta", 1, 1}, {"vor 2 minüte", 1, -2}, {"i 2 minüte", 1, 2}, {"vor # minüte", 1, -1}, {"i # minüte", 1, 1}, {"vor ## minüte", 1, -1}, {"i ## minüte", 1, 1}, {"vor 1 stund", 2, -1}, {"i 1 stund", 2, 1}, {"vor 2 stunde", 2, -2}, {"i 2 stunde", 2, 2}, {"vor # stunde", 2, -1}, {"i # stunde", 2, 1}, {"vor ## stunde", 2, -1}, {"i ## stunde", 2, 1}, {"vor 1 tag", 3, -1}, {"i 1 tag", 3, 1}, {"vor 2 täg", 3, -2}, {"i 2 täg", 3, 2}, {"vor # täg", 3, -1}, {"i # täg", 3, 1}, {"vor ## täg", 3, -1}, {"i ## täg", 3, 1}, {"vor 1 wuča", 4, -1}, {"i 1 wuča", 4, 1}, {"cor 2 wučä", 4, -2}, {"i 2 wučä", 4, 2}, {"cor # wučä", 4, -1}, {"i # wučä", 4, 1}, {"cor ## wučä", 4, -1}, {"i ## wučä", 4, 1}, {"vor 1 mánet", 5, -1}, {"I 1 mánet", 5, 1}, {"vor 2 mánet", 5, -2}, {"I 2 mánet", 5, 2}, {"vor # mánet", 5, -1}, {"I # mánet", 5, 1}, {"vor ## mánet", 5, -1}, {"I ## mánet", 5, 1}, {"vor 1 jár", 6, -1}, {"I 1 jár", 6, 1}, {"cor 2 jár", 6, -2}, {"I 2 jár", 6, 2}, {"cor # jár", 6, -1}, {"I # jár", 6, 1}, {"cor ## jár", 6, -1}, {"I ## jár", 6, 1}}},
	{"xog",
		[]nameOf{{"Janwaliyo", 1}, {"Jan", 1}, {"Febwaliyo", 2}, {"Feb", 2}, {"Marisi", 3}, {"Mar", 3}, {"Apuli", 4}, {"Apu", 4}, {"Maayi", 5}, {"Maa", 5}, {"Juuni", 6}, {"Juu", 6}, {"Julaayi", 7}, {"Jul", 7}, {"Agusito", 8}, {"Agu", 8}, {"Sebuttemba", 9}, {"Seb", 9}, {"Okitobba", 10}, {"Oki", 10}, {"Novemba", 11}, {"Nov", 11}, {"Desemba", 12}, {"Des", 12}},
		[]nameOf{{"# Janwaliyo ##", 1}, {"# Febwaliyo ##", 2}, {"# Marisi ##", 3}, {"# Apuli ##", 4}, {"# Maayi ##", 5}, {"# Juuni ##", 6}, {"# Julaayi ##", 7}, {"# Agusito ##", 8}, {"# Sebuttemba ##", 9}, {"# Okitobba ##", 10}, {"# Novemba ##", 11}, {"# Desemba ##", 12}},
		[]nameOf{{"Balaza", 1}, {"Owokubili", 2}, {"Owokusatu", 3}, {"Olokuna", 4}, {"Olokutaanu", 5}, {"Olomukaaga", 6}, {"Sabiiti", 0}, {"Bala", 1}, {"Kubi", 2}, {"Kusa", 3}, {"Kuna", 4}, {"Kuta", 5}, {"Muka", 6}, {"Sabi", 0}},
		[]amountOf{}},
	{"yav",
		[]nameOf{{"pikítíkítie, oólí ú kutúan", 1}, {"o.1", 1}, {"siɛyɛ́, oóli ú kándíɛ", 2}, {"o.2", 2}, {"ɔnsúmbɔl, oóli ú kátátúɛ", 3}, {"o.3", 3}, {"mesiŋ, oóli ú kénie", 4}, {"o.4", 4}, {"ensil, oóli ú kátánuɛ", 5}, {"o.5", 5}, {"ɔsɔn", 6}, {"o.6", 6}, {"efute", 7}, {"o.7", 7}, {"pisuyú", 8}, {"o.8", 8}, {"imɛŋ i puɔs", 9}, {"o.9", 9}, {"imɛŋ i putúk,oóli ú kátíɛ", 10}, {"o.10", 10}, {"makandikɛ", 11}, {"o.11", 11}, {"pilɔndɔ́", 12}, {"o.12", 12}},
		[]nameOf{{"# pikítíkítie, oólí ú kutúan ##", 1}, {"# siɛyɛ́, oóli ú kándíɛ ##", 2}, {"# ɔnsúmbɔl, oóli ú kátátúɛ ##", 3}, {"# mesiŋ, oóli ú kénie ##", 4}, {"# ensil, oóli ú kátánuɛ ##", 5}, {"# ɔsɔn ##", 6}, {"# efute ##", 7}, {"# pisuyú ##", 8}, {"# imɛŋ i puɔs ##", 9}, {"# imɛŋ i putúk,oóli ú kátíɛ ##", 10}, {"# makandikɛ ##", 11}, {"# pilɔndɔ́ ##", 12}},
		[]nameOf{{"móndie", 1}, {"muányáŋmóndie", 2}, {"metúkpíápɛ", 3}, {"kúpélimetúkpiapɛ", 4}, {"feléte", 5}, {"séselé", 6}, {"sɔ́ndiɛ", 0}, {"md", 1}, {"mw", 2}, {"et", 3}, {"kl", 4}, {"fl", 5}, {"ss", 6}, {"sd", 0}},
		[]amountOf{}},
	{"yi",
		[]nameOf{{"יאַנואַר", 1}, {"פֿעברואַר", 2}, {"מערץ", 3}, {"אַפּריל", 4}, {"מיי", 5}, {"יוני", 6}, {"יולי", 7}, {"אויגוסט", 8}, {"סעפּטעמבער", 9}, {"אקטאבער", 10}, {"נאוועמבער", 11}, {"דעצעמבער", 12}},
		[]nameOf{},
		[]nameOf{{"מאָנטיק", 1}, {"דינסטיק", 2}, {"מיטוואך", 3}, {"דאנערשטיק", 4}, {"פֿרײַטיק", 5}, {"שבת", 6}, {"זונטיק", 0}},
		[]amountOf{{"אין 1 טאָג אַרום", 3, 1}, {"אין 2 טעג אַרום", 3, 2}, {"אין # טעג אַרום", 3, 1}, {"אין ## טעג אַרום", 3, 1}, {"פֿאַר 1 חודש", 5, -1}, {"איבער 1 חודש", 5, 1}, {"פֿאַר 2 חדשים", 5, -2}, {"איבער 2 חדשים", 5, 2}, {"פֿאַר # חדשים", 5, -1}, {"איבער # חדשים", 5, 1}, {"פֿאַר ## חדשים", 5, -1}, {"איבער ## חדשים", 5, 1}, {"פֿאַר 1 יאָר", 6, -1}, {"איבער 1 יאָר", 6, 1}, {"פֿאַר 2 יאָר", 6, -2}, {"איבער 2 יאָר", 6, 2}, {"פֿאַר # יאָר", 6, -1}, {"איבער # יאָר", 6, 1}, {"פֿאַר ## יאָר", 6, -1}, {"איבער ## יאָר", 6, 1}}},
	{"yo",
		[]nameOf{{"Oṣù Ṣẹ́rẹ́", 1}, {"Oṣù Èrèlè", 2}, {"Oṣù Ẹrẹ̀nà", 3}, {"Oṣù Ìgbé", 4}, {"Oṣù Ẹ̀bibi", 5}, {"Oṣù Òkúdu", 6}, {"Oṣù Agẹmọ", 7}, {"Oṣù Ògún", 8}, {"Oṣù Owewe", 9}, {"Oṣù Ọ̀wàrà", 10}, {"Oṣù Bélú", 11}, {"Oṣù Ọ̀pẹ̀", 12}},
		[]nameOf{{"# Oṣù Ṣẹ́rẹ́ ##", 1}, {"# Oṣù Èrèlè ##", 2}, {"# Oṣù Ẹrẹ̀nà ##", 3}, {"# Oṣù Ìgbé ##", 4}, {"# Oṣù Ẹ̀bibi ##", 5}, {"# Oṣù Òkúdu ##", 6}, {"# Oṣù Agẹmọ ##", 7}, {"# Oṣù Ògún ##", 8}, {"# Oṣù Owewe ##", 9}, {"# Oṣù Ọ̀wàrà ##", 10}, {"# Oṣù Bélú ##", 11}, {"# Oṣù Ọ̀pẹ̀ ##", 12}},
		[]nameOf{{"Ajé", 1}, {"Ìsẹ́gun", 2}, {"Ọjọ́rú", 3}, {"Ọjọ́bọ", 4}, {"Ẹtì", 5}, {"Àbámẹ́ta", 6}, {"Àìkú", 0}},
		[]amountOf{}},
	{"yue",
		[]nameOf{{"1", 1}, {"1月", 1}, {"2", 2}, {"2月", 2}, {"3", 3}, {"3月", 3}, {"4", 4}, {"4月", 4}, {"5", 5}, {"5月", 5}, {"6", 6}, {"6月", 6}, {"7", 7}, {"7月", 7}, {"8", 8}, {"8月", 8}, {"9", 9}, {"9月", 9}, {"10", 10}, {"10月", 10}, {"11", 11}, {"11月", 11}, {"12", 12}, {"12月", 12}},
		[]nameOf{},
		[]nameOf{{"星期一", 1}, {"星期二", 2}, {"星期三", 3}, {"星期四", 4}, {"星期五", 5}, {"星期六", 6}, {"星期日", 0}},
		[]amountOf{{"1 秒前", 0, -1}, {"1 秒後", 0, 1}, {"2 秒前", 0, -2}, {"2 秒後", 0, 2}, {"# 秒前", 0, -1}, {"# 秒後", 0, 1}, {"## 秒前", 0, -1}, {"## 秒後", 0, 1}, {"1 分鐘前", 1, -1}, {"1 分鐘後", 1, 1}, {"2 分鐘前", 1, -2}, {"2 分鐘後", 1, 2}, {"# 分鐘前", 1, -1}, {"# 分鐘後", 1, 1}, {"## 分鐘前", 1, -1}, {"## 分鐘後", 1, 1}, {"1 小時前", 2, -1}, {"1 小時後", 2, 1}, {"2 小時前", 2, -2}, {"2 小時後", 2, 2}, {"# 小時前", 2, -1}, {"# 小時後", 2, 1}, {"## 小時前", 2, -1}, {"## 小時後", 2, 1}, {"1 日前", 3, -1}, {"1 日後", 3, 1}, {"2 日前", 3, -2}, {"2 日後", 3, 2}, {"# 日前", 3, -1}, {"# 日後", 3, 1}, {"## 日前", 3, -1}, {"## 日後", 3, 1}, {"1 個星期前", 4, -1}, {"1 個星期後", 4, 1}, {"2 個星期前", 4, -2}, {"2 個星期後", 4, 2}, {"# 個星期前", 4, -1}, {"# 個星期後", 4, 1}, {"## 個星期前", 4, -1}, {"## 個星期後", 4, 1}, {"1 個月前", 5, -1}, {"1 個月後", 5, 1}, {"2 個月前", 5, -2}, {"2 個月後", 5, 2}, {"# 個月前", 5, -1}, {"# 個月後", 5, 1}, {"## 個月前", 5, -1}, {"## 個月後", 5, 1}, {"1 年前", 6, -1}, {"1 年後", 6, 1}, {"2 年前", 6, -2}, {"2 年後", 6, 2}, {"# 年前", 6, -1}, {"# 年後", 6, 1}, {"## 年前", 6, -1}, {"## 年後", 6, 1}}},
	{"zgh",
		[]nameOf{{"ⵉⵏⵏⴰⵢⵔ", 1}, {"ⵉⵏⵏ", 1}, {"ⴱⵕⴰⵢⵕ", 2}, {"ⴱⵕⴰ", 2}, {"ⵎⴰⵕⵚ", 3}, {"ⵎⴰⵕ", 3}, {"ⵉⴱⵔⵉⵔ", 4}, {"ⵉⴱⵔ", 4}, {"ⵎⴰⵢⵢⵓ", 5}, {"ⵎⴰⵢ", 5}, {"ⵢⵓⵏⵢⵓ", 6}, {"ⵢⵓⵏ", 6}, {"ⵢⵓⵍⵢⵓⵣ", 7}, {"ⵢⵓⵍ", 7}, {"ⵖⵓⵛⵜ", 8}, {"ⵖⵓⵛ", 8}, {"ⵛⵓⵜⴰⵏⴱⵉⵔ", 9}, {"ⵛⵓⵜ", 9}, {"ⴽⵜⵓⴱⵔ", 10}, {"ⴽⵜⵓ", 10}, {"ⵏⵓⵡⴰⵏⴱⵉⵔ", 11}, {"ⵏⵓⵡ", 11}, {"ⴷⵓⵊⴰⵏⴱⵉⵔ", 12}, {"ⴷⵓⵊ", 12}},
		[]nameOf{{"# ⵉⵏⵏⴰⵢⵔ ##", 1}, {"# ⴱⵕⴰⵢⵕ ##", 2}, {"# ⵎⴰⵕⵚ ##", 3}, {"# ⵉⴱⵔⵉⵔ ##", 4}, {"# ⵎⴰⵢⵢⵓ ##", 5}, {"# ⵢⵓⵏⵢⵓ ##", 6}, {"# ⵢⵓⵍⵢⵓⵣ ##", 7}, {"# ⵖⵓⵛⵜ ##", 8}, {"# ⵛⵓⵜⴰⵏⴱⵉⵔ ##", 9}, {"# ⴽⵜⵓⴱⵔ ##", 10}, {"# ⵏⵓⵡⴰⵏⴱⵉⵔ ##", 11}, {"# ⴷⵓⵊⴰⵏⴱⵉⵔ ##", 12}},
		[]nameOf{{"ⴰⵢⵏⴰⵙ", 1}, {"ⴰⵙⵉⵏⴰⵙ", 2}, {"ⴰⴽⵕⴰⵙ", 3}, {"ⴰⴽⵡⴰⵙ", 4}, {"ⴰⵙⵉⵎⵡⴰⵙ", 5}, {"ⴰⵙⵉⴹⵢⴰⵙ", 6}, {"ⴰⵙⴰⵎⴰⵙ", 0}, {"ⴰⵢⵏ", 1}, {"ⴰⵙⵉ", 2}, {"ⴰⴽⵕ", 3}, {"ⴰⴽⵡ", 4}, {"ⴰⵙⵉⵎ", 5}, {"ⴰⵙⵉⴹ", 6}, {"ⴰⵙⴰ", 0}},
		[]amountOf{}},
	{"zh",
		[]nameOf{{"1", 1}, {"一月", 1}, {"2", 2}, {"二月", 2}, {"3", 3}, {"三月", 3}, {"4", 4}, {"四月", 4}, {"5", 5}, {"五月", 5}, {"6", 6}, {"六月", 6}, {"7", 7}, {"七月", 7}, {"8", 8}, {"八月", 8}, {"9", 9}, {"九月", 9}, {"10", 10}, {"十月", 10}, {"11", 11}, {"十一月", 11}, {"12", 12}, {"十二月", 12}},
		[]nameOf{{"##年1月#日", 1}, {"##年2月#日", 2}, {"##年3月#日", 3}, {"##年4月#日", 4}, {"##年5月#日", 5}, {"##年6月#日", 6}, {"##年7月#日", 7}, {"##年8月#日", 8}, {"##年9月#日", 9}, {"##年10月#日", 10}, {"##年11月#日", 11}, {"##年12月#日", 12}},
		[]nameOf{{"星期一", 1}, {"星期二", 2}, {"星期三", 3}, {"星期四", 4}, {"星期五", 5}, {"星期六", 6}, {"星期日", 0}, {"周一", 1}, {"周二", 2}, {"周三", 3}, {"周四", 4}, {"周五", 5}, {"周六", 6}, {"周日", 0}},
		[]amountOf{{"1秒钟前", 0, -1}, {"1秒钟后", 0, 1}, {"2秒钟前", 0, -2}, {"2秒钟后", 0, 2}, {"#秒钟前", 0, -1}, {"#秒钟后", 0, 1}, {"##秒钟前", 0, -1}, {"##秒钟后", 0, 1}, {"1分钟前", 1, -1}, {"1分钟后", 1, 1}, {"2分钟前", 1, -2}, {"2分钟后", 1, 2}, {"#分钟前", 1, -1}, {"#分钟后", 1, 1}, {"##分钟前", 1, -1}, {"##分钟后", 1, 1}, {"1小时前", 2, -1}, {"1小时后", 2, 1}, {"2小时前", 2, -2}, {"2小时后", 2, 2}, {"#小时前", 2, -1}, {"#小时后", 2, 1}, {"##小时前", 2, -1}, {"##小时后", 2, 1}, {"1天前", 3, -1}, {"1天后", 3, 1}, {"2天前", 3, -2}, {"2天后", 3, 2}, {"#天前", 3, -1}, {"#天后", 3, 1}, {"##天前", 3, -1}, {"##天后", 3, 1}, {"1周前", 4, -1}, {"1周后", 4, 1}, {"2周前", 4, -2}, {"2周后", 4, 2}, {"#周前", 4, -1}, {"#周后", 4, 1}, {"##周前", 4, -1}, {"##周后", 4, 1}, {"1个月前", 5, -1}, {"1个月后", 5, 1}, {"2个月前", 5, -2}, {"2个月后", 5, 2}, {"#个月前", 5, -1}, {"#个月后", 5, 1}, {"##个月前", 5, -1}, {"##个月后", 5, 1}, {"1年前", 6, -1}, {"1年后", 6, 1}, {"2年前", 6, -2}, {"2年后", 6, 2}, {"#年前", 6, -1}, {"#年后", 6, 1}, {"##年前", 6, -1}, {"##年后", 6, 1}}},
	{"zh-Hans",
		[]nameOf{{"1", 1}, {"一月", 1}, {"2", 2}, {"二月", 2}, {"3", 3}, {"三月", 3}, {"4", 4}, {"四月", 4}, {"5", 5}, {"五月", 5}, {"6", 6}, {"六月", 6}, {"7", 7}, {"七月", 7}, {"8", 8}, {"八月", 8}, {"9", 9}, {"九月", 9}, {"10", 10}, {"十月", 10}, {"11", 11}, {"十一月", 11}, {"12", 12}, {"十二月", 12}},
		[]nameOf{},
		[]nameOf{{"星期一", 1}, {"星期二", 2}, {"星期三", 3}, {"星期四", 4}, {"星期五", 5}, {"星期六", 6}, {"星期日", 0}, {"周一", 1}, {"周二", 2}, {"周三", 3}, {"周四", 4}, {"周五", 5}, {"周六", 6}, {"周日", 0}},
		[]amountOf{{"1秒钟前", 0, -1}, {"1秒钟后", 0, 1}, {"2秒钟前", 0, -2}, {"2秒钟后", 0, 2}, {"#秒钟前", 0, -1}, {"#秒钟后", 0, 1}, {"##秒钟前", 0, -1}, {"##秒钟后", 0, 1}, {"1分钟前", 1, -1}, {"1分钟后", 1, 1}, {"2分钟前", 1, -2}, {"2分钟后", 1, 2}, {"#分钟前", 1, -1}, {"#分钟后", 1, 1}, {"##分钟前", 1, -1}, {"##分钟后", 1, 1}, {"1小时前", 2, -1}, {"1小时后", 2, 1}, {"2小时前", 2, -2}, {"2小时后", 2, 2}, {"#小时前", 2, -1}, {"#小时后", 2, 1}, {"##小时前", 2, -1}, {"##小时后", 2, 1}, {"1天前", 3, -1}, {"1天后", 3, 1}, {"2天前", 3, -2}, {"2天后", 3, 2}, {"#天前", 3, -1}, {"#天后", 3, 1}, {"##天前", 3, -1}, {"##天后", 3, 1}, {"1周前", 4, -1}, {"1周后", 4, 1}, {"2周前", 4, -2}, {"2周后", 4, 2}, {"#周前", 4, -1}, {"#周后", 4, 1}, {"##周前", 4, -1}, {"##周后", 4, 1}, {"1个月前", 5, -1}, {"1个月后", 5, 1}, {"2个月前", 5, -2}, {"2个月后", 5, 2}, {"#个月前", 5, -1}, {"#个月后", 5, 1}, {"##个月前", 5, -1}, {"##个月后", 5, 1}, {"1年前", 6, -1}, {"1年后", 6, 1}, {"2年前", 6, -2}, {"2年后", 6, 2}, {"#年前", 6, -1}, {"#年后", 6, 1}, {"##年前", 6, -1}, {"##年后", 6, 1}}},
	{"zh-Hant",
		[]nameOf{{"1", 1}, {"1月", 1}, {"2", 2}, {"2月", 2}, {"3", 3}, {"3月", 3}, {"4", 4}, {"4月", 4}, {"5", 5}, {"5月", 5}, {"6", 6}, {"6月", 6}, {"7", 7}, {"7月", 7}, {"8", 8}, {"8月", 8}, {"9", 9}, {"9月", 9}, {"10", 10}, {"10月", 10}, {"11", 11}, {"11月", 11}, {"12", 12}, {"12月", 12}},
		[]nameOf{},
		[]nameOf{{"星期一", 1}, {"星期二", 2}, {"星期三", 3}, {"星期四", 4}, {"星期五", 5}, {"星期六", 6}, {"星期日", 0}, {"週一", 1}, {"週二", 2}, {"週三", 3}, {"週四", 4}, {"週五", 5}, {"週六", 6}, {"週日", 0}},
		[]amountOf{{"1 秒前", 0, -1}, {"1 秒後", 0, 1}, {"2 秒前", 0, -2}, {"2 秒後", 0, 2}, {"# 秒前", 0, -1}, {"# 秒後", 0, 1}, {"## 秒前", 0, -1}, {"## 秒後", 0, 1}, {"1 分鐘前", 1, -1}, {"1 分鐘後", 1, 1}, {"2 分鐘前", 1, -2}, {"2 分鐘後", 1, 2}, {"# 分鐘前", 1, -1}, {"# 分鐘後", 1, 1}, {"## 分鐘前", 1, -1}, {"## 分鐘後", 1, 1}, {"1 小時前", 2, -1}, {"1 小時後", 2, 1}, {"2 小時前", 2, -2}, {"2 小時後", 2, 2}, {"# 小時前", 2, -1}, {"# 小時後", 2, 1}, {"## 小時前", 2, -1}, {"## 小時後", 2, 1}, {"1 天前", 3, -1}, {"1 天後", 3, 1}, {"2 天前", 3, -2}, {"2 天後", 3, 2}, {"# 天前", 3, -1}, {"# 天後", 3, 1}, {"## 天前", 3, -1}, {"## 天後", 3, 1}, {"1 週前", 4, -1}, {"1 週後", 4, 1}, {"2 週前", 4, -2}, {"2 週後", 4, 2}, {"# 週前", 4, -1}, {"# 週後", 4, 1}, {"## 週前", 4, -1}, {"## 週後", 4, 1}, {"1 個月前", 5, -1}, {"1 個月後", 5, 1}, {"2 個月前", 5, -2}, {"2 個月後", 5, 2}, {"# 個月前", 5, -1}, {"# 個月後", 5, 1}, {"## 個月前", 5, -1}, {"## 個月後", 5, 1}, {"1 年前", 6, -1}, {"1 年後", 6, 1}, {"2 年前", 6, -2}, {"2 年後", 6, 2}, {"# 年前", 6, -1}, {"# 年後", 6, 1}, {"## 年前", 6, -1}, {"## 年後", 6, 1}}},
	{"zu",
		[]nameOf{{"Januwari", 1}, {"Jan", 1}, {"Februwari", 2}, {"Feb", 2}, {"Mashi", 3}, {"Mas", 3}, {"Ephreli", 4}, {"Eph", 4}, {"Meyi", 5}, {"Mey", 5}, {"Juni", 6}, {"Jun", 6}, {"Julayi", 7}, {"Jul", 7}, {"Agasti", 8}, {"Aga", 8}, {"Septhemba", 9}, {"Sep", 9}, {"Okthoba", 10}, {"Okt", 10}, {"Novemba", 11}, {"Nov", 11}, {"Disemba", 12}, {"Dis", 12}},
		[]nameOf{{"Januwari #, ##", 1}, {"Februwari #, ##", 2}, {"Mashi #, ##", 3}, {"Ephreli #, ##", 4}, {"Meyi #, ##", 5}, {"Juni #, ##", 6}, {"Julayi #, ##", 7}, {"Agasti #, ##", 8}, {"Septhemba #, ##", 9}, {"Okthoba #, ##", 10}, {"Novemba #, ##", 11}, {"Disemba #, ##", 12}},
		[]nameOf{{"UMsombuluko", 1}, {"ULwesibili", 2}, {"ULwesithathu", 3}, {"ULwesine", 4}, {"ULwesihlanu", 5}, {"UMgqibelo", 6}, {"ISonto", 0}, {"Mso", 1}, {"Bil", 2}, {"Tha", 3}, {"Sin", 4}, {"Hla", 5}, {"Mgq", 6}, {"Son", 0}},
		[]amountOf{{"1 isekhondi eledlule", 0, -1}, {"2 amasekhondi edlule", 0, -2}, {"# amasekhondi edlule", 0, -1}, {"## amasekhondi edlule", 0, -1}, {"1 iminithi eledlule", 1, -1}, {"2 amaminithi edlule", 1, -2}, {"# amaminithi edlule", 1, -1}, {"## amaminithi edlule", 1, -1}, {"1 ihora eledlule", 2, -1}, {"1 inyanga edlule", 5, -1}, {"2 izinyanga ezedlule", 5, -2}, {"# izinyanga ezedlule", 5, -1}, {"## izinyanga ezedlule", 5, -1}, {"1 unyaka odlule", 6, -1}, {"2 iminyaka edlule", 6, -2}, {"# iminyaka edlule", 6, -1}, {"## iminyaka edlule", 6, -1}}},
}
