// -*- mode: Bluespec; -*-
/// Published data.  Generated once by bin/gen_tables.py and reviewed; decimal digits packed in
/// groups of 32 entries of w digits each (after a leading 1), scaled by 10^d and offset by 10^w/2.
module tables {
  import fix.* from "./fix"

  type Packed = { w: int, d: int, n: int, c: List[int] }
  pure def entry(t: Packed, i: int): int = {
    pure val k = i / 32
    pure val len = if (32 * k + 32 <= t.n) 32 else t.n - 32 * k
    pure val x = (t.c[k] / 10^(t.w * (len - 1 - i % 32))) % 10^(t.w)
    rat(x - 10^(t.w) / 2, 10^(t.d))
  }
  pure def unpack(t: Packed): List[int] = range(0, t.n).foldl([], (l, i) => l.append(entry(t, i)))

  /// a sampled spectrum: wavelengths start + i * step, declared end
  type Table = { start: int, end: int, step: int, v: Packed }
  pure val XBAR: Table = { start: 360 * ONE, end: 830 * ONE, step: 1 * ONE, v: { w: 14, d: 12, n: 471, c: [15000012990000050000145847000500001638021005000018400370050000206690200500002321000005000026072800050000293075000500003293880005000036991400050000414900000500004641587005000051898600050000581854000500006552347005000074160000050000845029600500009645268005000109494900050001231154000500013680000005000150205000050001642328000500018023820005000199575700050002236000000500025353850005000289260300050003300829000500037532360005000424300000050004762389000,
    15000533004800050005978712000500067411170005000765000000050008751373000500100288800005001142170000050012869010000500143100000005001570443000050017147440000500187812200005002074801000050023190000000500262073600005002978248000050033880920000500384682400005004351000000050048995600000500550226000005006171880000050069212000000500776300000005008695811000050097176720000501084063000005012076720000050134380000000501493582000005016539570000050181983100000,
    15019861100000050214770000000502301868000005024487970000050258777300000502718079000005028390000000050294943800000503048965000005031378730000050321645400000503285000000005033435130000050339210100000503431213000005034612960000050348280000000503495999000005035014740000050350013000000503492870000005034806000000050346373300000503442624000005034180880000050339094100000503362000000005033319770000050330041100000503266357000005032288680000050318700000000,
    15031402510000050308884000000503032904000005029725790000050290800000000502839701000005027672140000050268917800000502604227000005025110000000050240847500000502298512000005021840720000050206811500000501953600000005018421360000050173327300000501626881000005015228330000050142100000000501321786000005012256960000050113275200000501042979000005009564000000050087299550000500793080400005007171776000050064580990000500579500100005005186211000050046281520000,
    15004115088000050036412830000500320100000005002791720000050024144400000500206870000005001754040000050014700000000500121617900005000991996000050007967240000500062963460005000490000000050003777173000500029453200005000242488000050002236293000500024000000005000292552000050003836560000500051748400005000698208000050009300000000500121494900005001553588000050019477520000500239927700005002910000000050034814850000500411201600005004798504000050055378610000,
    15006327000000050071635010000500804622400005008973996000050099456450000501096000000005012016740000050131114500000501423679000005015385420000050165500000000501772571000005018914000000050201169400000502133658000005022574990000050238320900000502510668000005026399220000050277101700000502904000000005030389120000050317572600000503314384000005034548280000050359700000000503740839000005038863960000050403378400000504183115000005043344990000050448795300000,
    15046433600000050480064000000504959713000005051205010000050528295900000505446916000005056120940000050577821500000505945000000005061122090000050627975800000506447602000005066156970000050678400000000506952392000005071205860000050728828400000507455188000005076210000000050778543200000507948256000005081092640000050826824800000508425000000005085793250000050873081600000508878944000005090231810000050916300000000509297995000005094279840000050955277600000,
    15096721790000050978600000000509893856000005099954880000051009089200000510180064000005102630000000051033982700000510409860000005104718800000051052466700000510567000000005105979440000051061799200000510628068000005106290960000051062200000000510607352000005105844360000051055224400000510509768000005104560000000051039036900000510313608000005102266620000051013047700000510026000000005099136750000050979331400000509664916000005095284790000050938400000000,
    15092319400000050907244000000508905020000005087292000000050854449900000508350840000005081494600000050794186000000507729540000005075140000000050729583600000507075888000005068560220000050663810400000506424000000005062151490000050601113800000505811052000005056139770000050541900000000505225995000005050354640000050484743600000504661939000005044790000000050429861300000504120980000005039464400000050377533300000503608000000005034445630000050328516800000,
    15031301920000050298001100000502835000000005026954480000050256118400000502431896000005023072720000050218700000000502070971000005019592320000050185170800000501748323000005016490000000050155366700000501462300000005013749000000050129146700000501212000000005011363970000050106465000000500996904400005009333061000050087400000000500819009600005007680428000050072077120000500676866400005006360000000050059806850000500562821600005005297104000050049818610000,
    15004677000000050043784050000500408753600005003807264000050035404610000500329000000005003056419000050028380560000500263448400005002445275000050022700000000500210842900005001959988000050018237320000500169871700005001584000000050014790640000500138313200005001294868000050012129200000500113591600005001062935000050009938846000500092884220005000867885400050008110916000500075823880005000708874600050006627313000500061954080005000579034600050005409826000,
    15000505258300050004717512000500044035070005000410945700050003833913000500035757480005000333434200050003109075000500028993270005000270434800050002523020000500023541680005000219661600050002049190000500019109600005000178143800050001660110000500015464590005000143997100050001340042000500012462750005000115847100050001076430000500009999493005000092873580050000862433200500008007503005000074339600050000690078600500006405156005000059450210050000551864600,
    15000051242900050000476021300500004424536005000041151170050000382981400500003566491005000033230110050000309758600500002888871005000026953940050000251568200500002348261005000021917100050000204525800500001908405005000017806540050000166150500500001550236005000014462190050000134909800500001258520005000011741300050000109551500500001022245005000009539445050000089023900500000830752705000007751269050000072313040500000674577805000006292844050000058706520,
    15000005477028050000051099180500000476765405000004448567050000041509940500000387332405000003614203050000033723520500000314648705000002935326050000027375730500000255243305000002379376050000022178700500000206738305000001927226050000017966400500000167499105000001561648050000014559770500000135738705000001265436050000011797230500000109984405000001025398050000009559646500000089120445000000830835850000007745769500000072214565000000673247550000006276423,
    15000000585130450000005455118500000050858685000000474146650000004420236500000041207835000000384171650000003581652500000033391275000000311294950000002902121500000027056455000000252252550000002351726500000021924155000000204390250000001905497500000017765095000000165621550000001544022500000014394405000000134197750000001251141] } }
  pure val YBAR: Table = { start: 360 * ONE, end: 830 * ONE, step: 1 * ONE, v: { w: 14, d: 12, n: 471, c: [15000000391700050000004393581500000049296045000000553213650000006208245500000069650005000000781321950000008767336500000098398445000001104323050000012390000500000138864105000001555728050000017442960500000195837505000002202000050000024839650500000280412605000003153104050000035215210500000390000005000004282640050000046914600500000515896005000005717640050000064000000500000723442105000008221224050000093508160500001061361005000012000000050000134984000,
    15000015149200050000170208000500001918160005000021700000050000246906700500002812400005000031852000050000357266700500003960000005000043371470050000473024000500005178760005000057221870050000640000000500007245600005000082550000050000941160000500010698800005000121000000050001362091000500015307520005000172036800050001935323000500021800000005000245480000050002764000000500031178000005000352640000050004000000000500045462400005000515932000050005829280000,
    15000654616000050007300000000500080865070005000890872000050009767680000500106644300005001160000000050012573170000500135827200005001462968000050015715090000500168400000005001800736000050019214480000500204539200005002171824000050023000000000500242946100005002561024000050026958570000500283512500005002980000000050031310830000500328836800005003452112000050036225710000500380000000005003984667000050041768000000500437660000005004584267000050048000000000,
    15005024368000050052573040000500549805600005005745872000050060000000000500626019700005006527752000050068042080000500709110900005007390000000050077016000000500802664000005008366680000050087232800000500909800000005009491755000050099045840000501033674000005010788460000050112600000000501175320000005012267440000050127992800000501334528000005013902000000050144676400000501504693000005015646190000050162717700000501693000000005017624310000050183558100000,
    15019127350000050199418000000502080200000005021711990000050226734500000502368571000005024748120000050258600000000502701849000005028229390000050295050500000503085780000005032300000000050338402100000503546858000005037169860000050389287500000504073000000005042562990000050444309600000504633944000005048293950000050503000000000505235693000005054451200000050565690000000505869653000005060820000000050629345600000506503068000005067087520000050690842400000,
    15071000000000050728185200000507454636000005076196940000050777836800000507932000000005080811040000050822496200000508363068000005084949160000050862000000000508738108000005088496240000050895493600000509054432000005091485010000050923734800000509320924000005093992260000050947225200000509540000000005096025610000050966007400000509712606000005097602250000050980300000000509840924000005098741820000050990312800000509928116000005099495010000050996710800000,
    15099809830000050999112000000509997482000005100000000000050999856700000509993046000005099832550000050996898700000509950000000005099260050000050989742600000509864444000005098272410000050978600000000509740837000005096917120000050963856800000509581349000005095200000000050945450400000509384992000005093116280000050923457600000509154000000005090700640000050898277200000508892048000005087978160000050870000000000508598613000005084939200000050838622000000,
    15082758130000050816300000000508047947000005079308200000050781192000000507691547000005075700000000050744754100000507324224000005072000360000050707496500000506949000000005068221920000050669471600000506566744000005064384480000050631000000000506181555000005060531440000050592475600000505796379000005056680000000050553961100000505411372000005052835280000050515632300000505030000000005049046880000050478030400000504656776000005045340320000050441200000000,
    15042908000000050417036000000504050320000005039303200000050381000000000503689184000005035682720000050344776800000503328176000005032100000000050309338100000502978504000005028659360000050275624500000502650000000005025476320000050244889600000502353344000005022605280000050217000000000502081616000005019954880000050191155200000501829744000005017500000000050167223500000501596464000005015227760000050145125900000501382000000005013150030000050125024800000,
    15011877920000050112769100000501070000000005010147620000050096188640000500911229600005008626485000050081600000000500771206400005007282552000050068710080000500647697600005006100000000050057396210000500539550400005005067376000050047549650000500445800000005004175872000050039084960000500365638400005003420048000050032000000000500299626100005002807664000050026329360000500247080500005002320000000050021800770000500205011200005001928108000050018120690000,
    15001700000000050015903790000500148371800005001381068000050012834780000500119200000005001106831000050010273390000500095333110005000884615700050008210000000500076237810005000708542400050006591476000500061384850005000572300000050005343059000500049957960005000467640400050004380075000500041020000005000383845300050003589099000500033542190005000313409300050002929000000500027381390005000255987600050002393244000500022372750005000209100000050001953587000,
    15000182458000050001703580000500015901870005000148400000050001384496000500012912680005000120409200050001122744000500010470000005000097658960050000911108800500008501332005000079323840050000740000000500006900827005000064331000050000599496000500005584547005000052000000050000483913600500004500528005000041834520050000388718400500003611000005000033538350050000311440400500002891656005000026845390050000249200000500002313019005000021468560050000199288400,
    15000018504750050000171900000500001597781005000014860440050000138301600500001287925005000012000000050000111859500500001043224005000009733560050000090845870500000848000005000007914667050000073858000500000689160005000006430267050000060000000500000559818705000005222560050000048718400500000454474705000004240000050000039561040500000369151205000003444868050000032148160500000300000005000002799125050000026113560500000243602405000002272461050000021200000,
    15000001977855050000018452850500000172168705000001606459050000014990000500000139872805000001305155050000012178180500000113625405000001060000050000009885877500000092173045000000859236250000008009133500000074657005000000695956750000006487995500000060486995000000563939650000005257800500000049017715000000456972050000004260194500000039717395000000370290050000003452163500000032183025000000300030050000002797139500000026078005000000243122050000002266531,
    15000000211301350000001969943500000018366005000000171223050000001596228500000014880905000000138731450000001293400500000012058205000000112414350000001048009500000009770585000000091093050000000849251500000007917215000000073809050000000688110500000006415305000000059809050000000557575500000005198085000000048461250000000451810] } }
  pure val ZBAR: Table = { start: 360 * ONE, end: 830 * ONE, step: 1 * ONE, v: { w: 14, d: 12, n: 471, c: [15000060610000050000680879200500007651456005000086001240050000966592800500010860000005000122058600050001372729000500015435790005000173428600050001946000000500021777770005000243580900050002731953000500030780640005000348600000050003975227000500045408800005000515832000050005802907000500064500010005000708321600050007745488000500085011520005000941454400050010549990000500119658000005001365587000050015588050000500177301500005002005001000050022511360000,
    15002520288000050028279720000500318970400005003621000000050041437710000500475037200005005411988000050060998030000500678500100005007448632000050081361560000500891536400005009854048000050110200000000501246133000005014170170000050161303500000501832568000005020740000000050233692100000502626114000005029477460000050330798500000503713000000005041620910000050465464200000505196948000005057953030000050645600000000507184838000005079671330000050877845900000,
    15095943900000051039050100000511153673000005118849710000051258123300000513239296000005138560000000051442635200000514948035000005154219030000051584880700000516229600000005165640480000051685295900000517098745000005173038210000051747060000000517600446000005176962330000051776263700000517804334000005178260000000051782968200000517816998000005177919820000051775867100000517721100000005176825890000051764039000000517589438000005175246630000051744100000000,
    15173355950000051720858100000517059369000005168873720000051669200000000516475287000005162341270000051596022300000515645280000005152810000000051486111400000514395215000005138987990000051338736200000512876400000005123742230000051187824300000511387611000005109014800000051041900000000509941976000005094734730000050901453100000508566193000005081295010000050770517300000507294448000005068991360000050652104900000506162000000005058232860000050550416200000,
    15052033760000050491967300000504651800000005043992460000050416183600000503938822000005037294590000050353300000000503348578000005031755210000050301337500000502861686000005027200000000050258817100000502464838000005023477180000050223453300000502123000000005020116920000050190119600000501792254000005016856080000050158200000000501481383000005013837580000050128994200000501200751000005011170000000050103904800000500966674800005008998272000050083845310000,
    15007824999000050073208990000500686781600005006456784000050060788350000500572500100005005390435000050050746640000500477527600005004489859000050042160000000500395072800005003693564000050034458360000500320887200005002984000000050027711810000500256944400005002378716000050021989250000500203000000005001871805000050017240360000500158636400005001458461000050013400000000500123072300005001130188000050010377920000500095293060005000874999900050008035200000,
    15000738160000050006785400000500062428000005000574999900050005303600000500048998000005000453420000050004202400000500039000000005000362320000050003370600000500031414000005000293480000050002749999000500025852000005000243860000050002309400000500021968000005000210000000050002017733000500019482000005000188980000050001840933000500018000000005000176626700050001737800000500017112000005000168306700050001650001000500016101330005000156440000050001513600000,
    15000145853300050001400000000500013366670005000127000000050001205000000500011466670005000110000000050001068800000500010494000005000103560000050001021200000500010000000005000096864000050000929920000500008868800005000084256000050000800000000500007609600005000072368000050000685920000500006454400005000060000000050000547866700500004916000005000043540000050000383466700500003400000005000030725330050000283160000500002654400005000025181330050000240000000,
    15000022954670050000220640000500002119600005000020218670050000190000000500001742133005000015564000050000135960000500001168533005000010000000050000086133330500000746000005000006500000050000056933330500000499999905000004416000050000039480000500000357200005000003264000050000030000000500000276533305000002556000050000023640000500000218133305000002000000050000018133330500000162000005000001420000050000012133330500000100000005000000773333350000005400000,
    15000000320000050000001333333500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000,
    15000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000,
    15000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000,
    15000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000,
    15000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000,
    15000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000500000000000005000000000000050000000000000] } }
  pure val SD50: Table = { start: 300 * ONE, end: 780 * ONE, step: 5 * ONE, v: { w: 7, d: 3, n: 97, c: [150000195001035500205150049145007778501126350147485016348501794850194795021010502247650239425025451502696150257245024488502717950298715039589504930850529105056513505827350600345058926505781850663215074825508103650872475088930,
    150906125090990509136850932385095109509353650919635093843509572450961695096613509687150971295099614510209951014275100755510153651023175101159510000050988685097735509832750989185096208509349950955935097688509847850992695099155,
    150990425097382509572250972905098857509726250956675096929509819051005975103003510106850991335093257508738150894925091604509224650928895084872507685450816835086511508954650925805085405507823050679615057692507030750829235080599,
    15078274] } }
  pure val SD55: Table = { start: 300 * ONE, end: 780 * ONE, step: 5 * ONE, v: { w: 7, d: 3, n: 97, c: [150000245001048500207250066485011224501593650206475022266502388550258515027817502921950306215032464503430850334465032584503533550380875049518506094950647515068554507006550715775069746506791450767605085605509179950979935099228,
    151004635100188509991351013265102739510040950980785099379510068051006885100695510034150999875102098510421051031565102102510253551029685101484510000050986085097216509748250977495094590509143250929265094419509478050951405094680,
    150942205092334509044850913895092330509059250888545089586509031750921335093950509195350899565084817507967750812585082840508384250848445077539507023550747685079301508214750849935078437507188050623375052793506436050759275073872,
    15071818] } }
  pure val SD60: Table = { start: 300 * ONE, end: 830 * ONE, step: 5 * ONE, v: { w: 19, d: 15, n: 107, c: [150000293000000000005001289900000000000500255050000000000050090412500000000005015532000000000000502196674999999999850284015000000000005029958349999999996503151519999999999350337842499999999905036053299999999990503723100000000000050384087000000000005040673300000000000504293790000000000050420886999999999905041239499999999990504384464999999999450464497999999999965059301950000000000507215409999999999050762220500000000005080289999999999990508153410000000000050827782000000000005080177450000000000507757670000000000050865984000000000005095620100000000010510176225000000000051079044000000000005108711099999999990,
    151095178000000000005108622950000000000510772810000000000051086911000000000005109654100000000000510666920000000000051036843000000000005104449400000000000510521449999999999051048149000000000005104415300000000000510346975000000000051025242000000000105104290850000000000510605750000000000051046854999999999905103313499999999990510342665000000000051035398000000000105101769899999999990510000000000000000050983759000000000005096751799999999990509673190000000000050967120000000000005093295200000000000508987840000000000050909071000000000005091935800000000000509197585000000001050920159000000000005091284100000000000,
    150905523000000000005088488850000000010508642540000000000050869331000000000005087440800000000000508563100000000000050838212000000000005084180300000000000508453940000000000050859118000000000005087284200000000000508527300000000000050832618000000000005078628750000000000507399570000000000050752048000000000005076413900000000000507764344999999999050788730000000000005072098499999999990506532400000000000050696352000000000005073946400000000010507665270000000000050793590000000000005073262650000000000506716629999999999050581650500000000005049163800000000000505995020000000000050707366000000000005068878900000000000,
    150670212000000000105067522600000000010506802400000000000050654395500000000005062855099999999990505886505000000000050548750000000000005057786200000000000506069740000000000050622269499999999955063756500000000000] } }
  pure val SD65: Table = { start: 300 * ONE, end: 780 * ONE, step: 5 * ONE, v: { w: 8, d: 4, n: 97, c: [15000034150016643500329455011765250202360502864475037053550385011503994885042430250449117504577505046638350493637505208915051032350499755505231185054648250687015508275495087120450914860509245895093431850900570508668235095773651048650511093605117008051174100,
    15117812051163360511486105115392051159230511236705108811051090820510935405108578051078020510629605104790051062390510768905106047051044050510422505104046051020230510000005098167150963342509606115095788050922368508868565089345950900062508980265089599150886489,
    15087698750854936508328865083493950836992508186305080026850801207508021465081246250822778508028105078284250740027506972135070665250716091507297905074349050679765506160405065744850698856507248635075087050693398506359275055005450464182505661185066805450650941,
    150633828] } }
  pure val DARKSKIN: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [150555058506150625062506250625062506250625062506350655070507650795081508450915103511951345143514751515158516851795188519051865181,
    15182518751965209] } }
  pure val MYR: Table = { start: 380 * ONE, end: 780 * ONE, step: 5 * ONE, v: { w: 18, d: 17, n: 81, c: [1532745741382705500532375057827054100531343946125157700528887938275526500523920568115888600518970203689053500512174606795921800507457827066946600504443315863403370502892863212850290502231665348475120501691130729263180501418110711796670501305314267748730501198616362784500501128871471240480501090606646565170501040071348100420501063736025414650501090766253377410501103271244809880501131065659122680501115464205694030501014877040621220500891858211883843500768557633847106500670570828469526500599580598764424500553725664234189500519378424120663500502536226522334500513636276967508,
    1500543320026053983500581998590243535500640057277462412500744952868340878500858363581937657501039576246516740501356543353864920501938451583997420503208407120200240507435603784594110562439372417807500591831003276872000594925303017505100595818783332924600595818775133269800595818762508778200595567906077174600595800615489342900595410157345656400594760760623723700593868132844754900592446668275143400590460602533305600588041219892793300584778787315170000580577912662301900575253185387142100568643939684457800561869457086061000554026444395911100547296441629383800543270159670404900,
    1540535804552839200538549183497490200537098358455106100535760870152308100534871280010839300534488011934469100534191787732329100533953109298712900533716950377436700533617201852771700533516744343336300533442162530646300533400876037640200533391579279008200533381845494636700533367277492845600533356951340559100] } }
  pure val MYG: Table = { start: 380 * ONE, end: 780 * ONE, step: 5 * ONE, v: { w: 17, d: 16, n: 81, c: [15331861713085874053296881877593990532786002162469705319173580231756052943225836948420525869706476873605188894319254765051253883819916890507868706031062175053143270865945350422881460313421503331834550291715029755948185972450303312505369047503098857189730075031686355188838150346699615029974503455195744367505040684806194829750544600373694056508090528742047375146348302857044053796796432966170576674426865403305876214747613370059184916556138430594065556253443705953731884533020059616432798402380596720001968507805970989746390046059728523035635540,
    15973116594076444059733510691541430597335111554436905972261079731725059733510217469170597314849518569305971061306300914059663713059551830595494196750254805913578989551261053643488039076870507150724254088515041230434471375150324238741836685503192462979820035031276033173096950326303704290574502953087214907395031561761170246450356742182708204504140300539556735050604260448956150634343003817003507891824529392295099542742665374751255957600932870515759091044168005195398239044210052314744747721780526885213609526205296029164217928053097549944419450,
    15317815883383822053229903473898980532635384793800905329143902278980053308087268036820533148268992224305331984550352389053323411725225450533291200941553905332919279695214053330276725788560533317970467326005333247030974549053332593492106010533327505027938305333294328448732053333094249577750] } }
  pure val MYB: Table = { start: 380 * ONE, end: 780 * ONE, step: 5 * ONE, v: { w: 18, d: 17, n: 81, c: [1534068079154805200534656118662485200535870049314035100539194702658819500546647173058733300555160089559860200568935961094892800580003334687860700587687978093531400591792809744395500593539520066963200594977034711518300595606294480524000595661560689031600595702526493132800595702493053471300595442397273706600595504732902020400594867783309333400593463229984232800590806199985226900584234103946372700560916571536564700522310696095953300511486667029133600507382276789574370505263872879105550504027230901688870503281946265095910502760619592704560502398489112703940502201133335279220,
    1502145020525599660502082894450956850502024831138880870502028939145120660501806534233591300501645574223446850501537326013409550501424417848455170501297396155433470501206497413452180501125747816039010501018272467169420500951653538723741500938829272866817500988761909067028501053634200645890501169056883744480501246297288710370501433666517742030501671817532754430501991566607500250502492905616328100503195967358604020504066955409524840505266938242193960506862511051419470508987723230001360511816235892643400514983094744213300519088340934183400523100640302521700525754338542220200,
    1527682603872153600529151777281079500530266250608323300531324730130288600532047832512463300532363699470796100532609730884690000532812736934018400532991797595888800533090790121664900533180363309599500533239662725536100533274078072682400533282085708148900533290173128344400533302596748863200533311108308149700] } }
  pure val SMW: Table = { start: 380 * ONE, end: 720 * ONE, step: rat(109375, 10000), v: { w: 18, d: 16, n: 32, c: [1510618958571272863510615019980348779510614335379927147510622711654692485510622036218416742510625059965187085510623938486985884510624706448043137510625048144827762510624366131308856510620694238892607510613167586932164510610334029377020510613868564828413510614215366116762510620336151299086510625497454805050510624317487992085510625249140554480510624277664486914510624749854090770510625538581025402510625326910104864510623922312225325510623650980354130510625256476715284510612277619533155510594262608698046510599810758292072510602547314449409510601263046243634510606565756823634] } }
  pure val SMC: Table = { start: 380 * ONE, end: 720 * ONE, step: rat(109375, 10000), v: { w: 22, d: 20, n: 32, c: [151041462802142675000005103286615337711880000510126146228964314000051035046052483621000005100786614470985670000510422280385081280000051044259673849982500005105352382902944090000510180776226938120000051044272990872771300005105293625419207500000510537034271160244000051053390186921597000005105377827009795740000510527093770467102000051053044904044679700005105505546401912080000510553673610724820000051045430663468397600005062348950639230800000501803807161318897700049992369624079801546004999984782152964218633499924897742652741690049997829136067150853005000065919466602369640500122788153185397800049995533022436279197005001711979908286514700500049211089759759800050005876292514333498505002525939941555008000] } }
  pure val SMM: Table = { start: 380 * ONE, end: 720 * ONE, step: rat(109375, 10000), v: { w: 29, d: 27, n: 32, c: [15099422138151236850000000000050989869371229756800000000000509829365828611696000000000005099627868399859310000000000051019895501900013300000000000510166395501210360000000000005102209131787573980000000000050996516660406824400000000000510097766178917882000000000005102154224708270160000000000050640319533877909600000000000500025012379477078184000000005000653399395557699400000000050002833408046267582600000000499999999999487903246109254954999094077083533536200000000050003393671832333120000000000499969361258878171594000000005022203936168286292000000000050631411400248119700000000000509748098557650096000000000005097209562333590570000000000051017377030286815000000000000509987519432273413000000000005094701725739602240000000000050852586231543548000000000000509489779858166084000000000005094751876096521490000000000050995989441910597900000000000508630135150380908000000000005089150987853523140000000000050848664926528450800000000000] } }
  pure val SMY: Table = { start: 380 * ONE, end: 720 * ONE, step: rat(109375, 10000), v: { w: 20, d: 18, n: 32, c: [15000557406229249208749995201716836855321499947463435701386204999354285199555002949994030648534199299499978163283962313285001678112060105532750096096355429062640502121735708198644605036169133290685070050539610115432325300507440881049217151005092209571148394050051046030429841122500510513824989063714005105119918221350850051051053091199105200510517397230360510005105160430867904850051051194403206146000510511590325868068005105166124654830300051051403852683686900510515941029228475005105114604369608400051051512375883047600510508871369510702005105089237081023800051047749281566830300510493272144017338005104359633334227260051039228077205146500] } }
  pure val SMR: Table = { start: 380 * ONE, end: 720 * ONE, step: rat(109375, 10000), v: { w: 21, d: 19, n: 32, c: [1501657560486708618000501184644280274779700501240829332963744700501137127205834992400500789924345188991300500322056035931065500499892016345921221250500180519755167303920500053407196598730530500136549187295013360499940435786454357160499981555634932646748499894281156384704960499970624478921999990499892095237281640640499919775693302496370499977330832297504060500070200240494706630499918471530999700700506077286696925279000509883156086543240000509939169104407882000510039338994753197000509923449986116712000509992653085885552000510084621557617270000509835829682744122000510085023660099048000509745113832656870000509854326957005994000509349576398096204000509871390779231940000] } }
  pure val SMG: Table = { start: 380 * ONE, end: 720 * ONE, step: rat(109375, 10000), v: { w: 22, d: 21, n: 32, c: [150026494153587602255004994982498657026776000498745276372751041700049905445035691611330004987473913818399475000499208293022395622300049920044264795824310004990644056655553093000506546861198299930000053957287551763414000005752440222998866600000596376478690218560000059985443385516233000005999929770252879200000599939086751140450000059999437226707140000005999391218134186700000599911237310424480000059601958487827158000005631862793384324400000525797401028763470000050094014888527335640004996920165439135025300499547696329663149660049931066589611725960004990964780446098460000499140863328346597900049916309130879710600004992131416766124569000499999163424212889148750054301225442817180004997225441024074080600] } }
  pure val SMB: Table = { start: 380 * ONE, end: 720 * ONE, step: rat(109375, 10000), v: { w: 23, d: 21, n: 32, c: [15099209771469720680000050988764260593691300000509953904074450564000005099529317353008220000050991814474116339500000510002584039673432000005099968478437342510000050999881207666571700000509850401214637043000005079029849053031280000050560821986174639700000503313345851399653000005013692410840839175000050018914906559664150000499999948870229067449114999957604506832108127049999580654068984657270500017473028136486615005000379991601776313160049999448985250934113600499999562833371015190335000758745017487328000050025795650780554020000500381683765325005500005004948958640803083000050049595992290102905000500498148195058122500005003984091106497802000050030501024937233870000500212430547652410800005000695965321043564000050004173364933098052500] } }
  pure val CHART0: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [150555058506150625062506250625062506250625062506350655070507650795081508450915103511951345143514751515158516851795188519051865181,
    15182518751965209] } }
  pure val CHART1: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [151175143517551915196519952045213522852515280530953295333531552865273527652775289533954205488552555465562557855955612562556385656,
    15678570057175734] } }
  pure val CHART2: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [151305177525153065324533053335331532353115298528552695250523152145199518551695157514951455142514151415141514351475152515451505144,
    15136513251355147] } }
  pure val CHART3: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [150515054505650575058505950605061506250635065506750755101514551785184517051495133512251155109510551045106510951125114511451125112,
    15115512051255130] } }
  pure val CHART4: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [151445198529453755408542154265426541954035379534653115281525452295214520852025194519352005214523052415254527953135348536653665359,
    15358536553775398] } }
  pure val CHART5: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [151365179524752975320533753555381541954665510554655675574556955515524548854455400535052995252522152045196519151885191519952125223,
    15232523352295229] } }
  pure val CHART6: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [150545054505350545054505550555055505650575058506150685089512551545174519952485335544455385587559555915587558455845590560356205639,
    15655566356635667] } }
  pure val CHART7: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [151225164522952865327536153885400539253625316526052095168513851175104509650905086508450845084508450845085509050985109512351435169,
    15205524452875332] } }
  pure val CHART8: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [150965115513151355133513251305128512551205115511051055100509550935092509350965108515652655399550055565579558855915593559455985602,
    15607560956095610] } }
  pure val CHART9: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [150925116514651695178517351585139511951015087507550665060505650535051505150525052505150525058507350965119514151665194522752655309,
    15355539654365478] } }
  pure val CHART10: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [150615061506250635064506650695075508551055139519252715376547655315549554655285504547154285381534753275318531253105314532753455363,
    15376538153785379] } }
  pure val CHART11: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [150635063506350645064506450655066506750685071507650875125520653055383543154695518556856075628563756405642564556485651565356575664,
    15673568056845688] } }
  pure val CHART12: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [150665079510251465200524452825309530852785231517851305094507050545046504250395038503850385038503950395040504150425044504550465046,
    15048505250575065] } }
  pure val CHART13: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [150525053505450555057505950615066507550935125517852465307533753345317529352625230519851655135511551045098509450925093509751025108,
    15113511551145114] } }
  pure val CHART14: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [150505049504850475047504750475047504650455044504450455046504750485049505050545060507251045178531254675581564456755690569857065715,
    15724573057345738] } }
  pure val CHART15: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [150585054505250525053505450565059506750815107515252255336546255595616565056725694571057235731573957465752575857645769577157765782,
    15790579657995804] } }
  pure val CHART16: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [151455195528353465362535453345306527652485218519051685149512751075100510251045109513752005290540055165615568757325760577457835793,
    15803581258175825] } }
  pure val CHART17: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [151085141519252365261528653175353539054265446544454235385533752835231518551465118510150905082507650745073507350745076507750765075,
    15073507250745079] } }
  pure val CHART18: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [151895255542356605811586258775884589158965899590459075909591159105911591459135916591559165914591559185919592159235924592259225925,
    15927593059305933] } }
  pure val CHART19: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [151715232536555075567558355885590559155905588558855895589559155905590559055895591559055905587558555835580557855765574557255715569,
    15568556855665566] } }
  pure val CHART20: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [151445192527253315350535753615363536353615359535853585359536053605361536153605362536253615359535853555352535053485345534353405338,
    15335533453325331] } }
  pure val CHART21: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 4, d: 3, n: 36, c: [151055131516351805186519051935194519451925191519151915192519251925192519251925193519251925191518951885186518451825181517951785176,
    15174517351725171] } }
  pure val CHART22: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 3, d: 3, n: 36, c: [1568577584587589590592592591590590590590590590590590590590590590589589588587586586585584584583583,
    1582581581581] } }
  pure val CHART23: Table = { start: 380 * ONE, end: 730 * ONE, step: 10 * ONE, v: { w: 3, d: 3, n: 36, c: [1531532532533533533533533532532532532532532532532532532532532532532532532532532532532532532532532,
    1532532532533] } }
  pure def spectrumTable(k: int): Table =
    if (k == 0) XBAR else if (k == 1) YBAR else if (k == 2) ZBAR else if (k == 3) SD50 else if (k == 4) SD55 else if (k == 5) SD60 else if (k == 6) SD65 else if (k == 7) DARKSKIN else if (k == 8) MYR else if (k == 9) MYG else if (k == 10) MYB else if (k == 11) SMW else if (k == 12) SMC else if (k == 13) SMM else if (k == 14) SMY else if (k == 15) SMR else if (k == 16) SMG else if (k == 17) SMB else if (k == 100) CHART0 else if (k == 101) CHART1 else if (k == 102) CHART2 else if (k == 103) CHART3 else if (k == 104) CHART4 else if (k == 105) CHART5 else if (k == 106) CHART6 else if (k == 107) CHART7 else if (k == 108) CHART8 else if (k == 109) CHART9 else if (k == 110) CHART10 else if (k == 111) CHART11 else if (k == 112) CHART12 else if (k == 113) CHART13 else if (k == 114) CHART14 else if (k == 115) CHART15 else if (k == 116) CHART16 else if (k == 117) CHART17 else if (k == 118) CHART18 else if (k == 119) CHART19 else if (k == 120) CHART20 else if (k == 121) CHART21 else if (k == 122) CHART22 else CHART23
  pure val FAST0: Packed = { w: 13, d: 11, n: 40, c: [150007864003005002194371600501011337400050376414870005120125300000523836455000053421092700005370589110000532293897000052147445000005104370500000503323702500050045448862005009799501000506361354600051668186900005288227840000542531576000055625171000005698405030000582231340000058714900000005901701300000584946910000057053844000005511883400000535186334000052165511400005125138130000506793317000050341091600005015297360000,
    150075753330005003974503700500175834410050009301683005000482049700500019897013050000764666405000066248275] }
  pure val FAST1: Packed = { w: 13, d: 11, n: 40, c: [150000229771735000062621010500027909619050010074297005003553221700500978486240050226347860005041813240000506645068000050997458500005150309770000521609411000053353284600005512981840000570692960000058716207500005946933700000597578640000059418205000005871674250000578109210000056431017400005535228440000542641664000053146731400005211038140000513743082000050816852800005046272284000502486207200050123956256005005530837000,
    150027350936005001435181300500063497024050003359008005000174076960500007185176050000276135055000023923465] }
  pure val FAST2: Packed = { w: 28, d: 25, n: 40, c: [150003696980000000000000000005001035981700000000000000000500478987800000000000000000050179216370000000000000000005057718244000000000000000000511636745000000000000000000051716710000000000000000000005195436530000000000000000000518531923000000000000000000051412766000000000000000000005088606480000000000000000000504850210700000000000000000050280286600000000000000000005016023952000000000000000000500790482500000000000000000050042011228000000000000000005002022258800000000000000000500085630260000000000000000050003655174400000000000000005000192423610000000000000000500014370250500000000000000050000980659000000000000000005000067336850000000000000000500003182758800000000000000050000139838980000000000000005000004345218800000000000000500000138027970000000000000050000001702404000000000000004999999970628326000000000000500000000000000000000000003050000000000000000000000000005000000000000000000000000000,
    150000000000000000000000000005000000000000000000000000000500000000000000000000000000050000000000000000000000000005000000000000000000000000000500000000000000000000000000050000000000000000000000000005000000000000000000000000000] }
  pure val FAST3: Packed = { w: 4, d: 3, n: 40, c: [150555058506150625062506250625062506250625062506350655070507650795081508450915103511951345143514751515158516851795188519051865181,
    151825187519652095209520952095209] }
  pure val FAST4: Packed = { w: 4, d: 3, n: 40, c: [151175143517551915196519952045213522852515280530953295333531552865273527652775289533954205488552555465562557855955612562556385656,
    156785700571757345734573457345734] }
  pure val FAST5: Packed = { w: 4, d: 3, n: 40, c: [151305177525153065324533053335331532353115298528552695250523152145199518551695157514951455142514151415141514351475152515451505144,
    151365132513551475147514751475147] }
  pure val FAST6: Packed = { w: 4, d: 3, n: 40, c: [150515054505650575058505950605061506250635065506750755101514551785184517051495133512251155109510551045106510951125114511451125112,
    151155120512551305130513051305130] }
  pure val FAST7: Packed = { w: 4, d: 3, n: 40, c: [151445198529453755408542154265426541954035379534653115281525452295214520852025194519352005214523052415254527953135348536653665359,
    153585365537753985398539853985398] }
  pure val FAST8: Packed = { w: 4, d: 3, n: 40, c: [151365179524752975320533753555381541954665510554655675574556955515524548854455400535052995252522152045196519151885191519952125223,
    152325233522952295229522952295229] }
  pure val FAST9: Packed = { w: 4, d: 3, n: 40, c: [150545054505350545054505550555055505650575058506150685089512551545174519952485335544455385587559555915587558455845590560356205639,
    156555663566356675667566756675667] }
  pure val FAST10: Packed = { w: 4, d: 3, n: 40, c: [151225164522952865327536153885400539253625316526052095168513851175104509650905086508450845084508450845085509050985109512351435169,
    152055244528753325332533253325332] }
  pure val FAST11: Packed = { w: 4, d: 3, n: 40, c: [150965115513151355133513251305128512551205115511051055100509550935092509350965108515652655399550055565579558855915593559455985602,
    156075609560956105610561056105610] }
  pure val FAST12: Packed = { w: 4, d: 3, n: 40, c: [150925116514651695178517351585139511951015087507550665060505650535051505150525052505150525058507350965119514151665194522752655309,
    153555396543654785478547854785478] }
  pure val FAST13: Packed = { w: 4, d: 3, n: 40, c: [150615061506250635064506650695075508551055139519252715376547655315549554655285504547154285381534753275318531253105314532753455363,
    153765381537853795379537953795379] }
  pure val FAST14: Packed = { w: 4, d: 3, n: 40, c: [150635063506350645064506450655066506750685071507650875125520653055383543154695518556856075628563756405642564556485651565356575664,
    156735680568456885688568856885688] }
  pure val FAST15: Packed = { w: 4, d: 3, n: 40, c: [150665079510251465200524452825309530852785231517851305094507050545046504250395038503850385038503950395040504150425044504550465046,
    150485052505750655065506550655065] }
  pure val FAST16: Packed = { w: 4, d: 3, n: 40, c: [150525053505450555057505950615066507550935125517852465307533753345317529352625230519851655135511551045098509450925093509751025108,
    151135115511451145114511451145114] }
  pure val FAST17: Packed = { w: 4, d: 3, n: 40, c: [150505049504850475047504750475047504650455044504450455046504750485049505050545060507251045178531254675581564456755690569857065715,
    157245730573457385738573857385738] }
  pure val FAST18: Packed = { w: 4, d: 3, n: 40, c: [150585054505250525053505450565059506750815107515252255336546255595616565056725694571057235731573957465752575857645769577157765782,
    157905796579958045804580458045804] }
  pure val FAST19: Packed = { w: 4, d: 3, n: 40, c: [151455195528353465362535453345306527652485218519051685149512751075100510251045109513752005290540055165615568757325760577457835793,
    158035812581758255825582558255825] }
  pure val FAST20: Packed = { w: 4, d: 3, n: 40, c: [151085141519252365261528653175353539054265446544454235385533752835231518551465118510150905082507650745073507350745076507750765075,
    150735072507450795079507950795079] }
  pure val FAST21: Packed = { w: 4, d: 3, n: 40, c: [151895255542356605811586258775884589158965899590459075909591159105911591459135916591559165914591559185919592159235924592259225925,
    159275930593059335933593359335933] }
  pure val FAST22: Packed = { w: 4, d: 3, n: 40, c: [151715232536555075567558355885590559155905588558855895589559155905590559055895591559055905587558555835580557855765574557255715569,
    155685568556655665566556655665566] }
  pure val FAST23: Packed = { w: 4, d: 3, n: 40, c: [151445192527253315350535753615363536353615359535853585359536053605361536153605362536253615359535853555352535053485345534353405338,
    153355334533253315331533153315331] }
  pure val FAST24: Packed = { w: 4, d: 3, n: 40, c: [151055131516351805186519051935194519451925191519151915192519251925192519251925193519251925191518951885186518451825181517951785176,
    151745173517251715171517151715171] }
  pure val FAST25: Packed = { w: 3, d: 3, n: 40, c: [1568577584587589590592592591590590590590590590590590590590590590589589588587586586585584584583583,
    1582581581581581581581581] }
  pure val FAST26: Packed = { w: 3, d: 3, n: 40, c: [1531532532533533533533533532532532532532532532532532532532532532532532532532532532532532532532532,
    1532532532533533533533533] }
  pure def fastTable(k: int): Packed =
    if (k == 0) FAST0 else if (k == 1) FAST1 else if (k == 2) FAST2 else if (k == 3) FAST3 else if (k == 4) FAST4 else if (k == 5) FAST5 else if (k == 6) FAST6 else if (k == 7) FAST7 else if (k == 8) FAST8 else if (k == 9) FAST9 else if (k == 10) FAST10 else if (k == 11) FAST11 else if (k == 12) FAST12 else if (k == 13) FAST13 else if (k == 14) FAST14 else if (k == 15) FAST15 else if (k == 16) FAST16 else if (k == 17) FAST17 else if (k == 18) FAST18 else if (k == 19) FAST19 else if (k == 20) FAST20 else if (k == 21) FAST21 else if (k == 22) FAST22 else if (k == 23) FAST23 else if (k == 24) FAST24 else if (k == 25) FAST25 else FAST26
  pure val CHARTXYZ: Packed = { w: 19, d: 16, n: 72, c: [151114724658576002805100725888509887350506804851374386517053719472180091204005345678666426550300525242625347936322051764551268533704205188407456694606800534487464479138445051059473990130834005133277347918783150506945293240773440052480534319950626505234488775087265430543924710655835980053093972938205427805426585306117720860544871428726929196053716676979428489005296684289521869400506336517033236169051356280449492615705118135849215997410538700511062732490052766910981907662805187024936557804100513532572766805648050838379901858336205063569653027831700513991893682157272053365622030402773405442073559500536960,
    151132387086873416305452335381043912150542068383776537780050777189830201861105079857337833160910506118583084127554052834989769133299505146507306835952600523442655669347170050985645748334792605195736407620434750511700774873453577050502897317753957305560496783126430100559420045497203420050925915898298089805294438533937775600519261353401754350053107390090496208005146374343503902810519962492706402244053932138365397210605862367362584048000591236914549892300059543116616077563005556755202339106460558862428191470570056367905273788812005340352953670460200535957858109436316053911089461966520005180744492472877450,
    151912889780113533405208821982951195700508450692858420268050894809788161642305098764777851694740503052587003119916350320079403929180735035405807103996314] }
  pure val WHITEXY: Packed = { w: 17, d: 15, n: 18, c: [1503457000000000005035850000000000051000000000000000503324300000000005034744000000000051000000000000000503216262420473975033773699595543651000000000000000503127000000000005032900000000000051000000000000000503140000000000005035100000000000051000000000000000503216800000000005033767000000000051000000000000000] }
  pure val RGB0: Packed = { w: 19, d: 18, n: 72, c: [151724728480880493605083759962817788270505758821411951679055480951786646517005298520072473280050521701356201977864051102460437570980705196759632618355470533592592894452630051038299699225482005150231511017197980505212444070457223552243771993290572005217743828970848350543026505767650913051231569941582209005519035322154572900540450102846143070057167693781728625005199041212317089540502715528075426162250649570668889614105106249925299062490539251917079669280055416770325050475005088351388656319860512029790125656933051042025384625933105043819962336647825513959588305607562053546471793565885005507845870795907500,
    150482568236537539705780412155464097700535407632998218720050215245428723455305023378239923946080504916381440741829452916245628230766005065266778571410280530187683530784926050645201950242818805429364630916839960503192115360148204050401891836492061905856774769327355100557537843124328110050078720884559552245503137518674846600508891864045335673053055581979662044004971420840777226957524895271098216043053830565910345919405916274030251293300591547823947591800058706179827335493005581883905589711800559112811935546880055840194986991657005355196666232587170536096054687265866053590057851060557405187552544609088000,
    151923626384892003505191769352695837000508705887389690448050900683952389722805090847286432883910503206619302905776050319333201106227205032594609229506610] }
  pure val RGB1: Packed = { w: 18, d: 17, n: 72, c: [1545224693621973540532042021831911327526616247599620840576618773082171900558251650651311290550319849052027180536595633399726890548086960916211990561465933791401400535556973251069424542389050283175117525309622681599850551101367961478900550398038200352050568740774192791020538583602386050470574775775026304890566855070697075900586331968576247600548344999804726246517979657101551463528268631607175300535953008635814937565954210206275850576216727962077010532886162834555090538154261674695505535618293687873864523160414007700747540946113657877026562996388252157010574050105872256330,
    1524335633582045169589645328551132400562950427675888750515812853514637068516559248564428300524568016555401645557633883075784080528335624780020113558549371354391720528173815088134740568675998977995280519616080544398784522145935251803960593419118659081710578297896494697660508515973850960804573741967993591610532988660666528690558873669801778260463075726284177230553606396742152030565231361478301530596225468880585770596188647333544990594081953180079840578691375201542920579246115534722950578819985067195820563040588133198630563501841775518690563345896962258030547027535704010640,
    1547584707476524760547516427628576060532651172982871670533195248201797730533334326368558510519663567417873806519620068770414990519835522626649670] }
  pure val RGB2: Packed = { w: 19, d: 18, n: 72, c: [151724949034789213805083742275147121240505758080235387228055481667407682652005298464057547432660521698832962517695051102730989304566705196749542671626420533590810825034817051038440035504753005150221251702132700505211812526913688052244212851765104005217722049842185320543024060430088906051231884840253326705519025160746376100540447644234209270057168518458938503005198966677599440920502713432456700552750649814372600320805106244414012927530539250138549032537055417436772189704005088295085198929420512027900933766143051042204035450237105043809504148107525513958750009698054053546894913768544605507810498429601900,
    150482402512981495005780501597154235100535399563531692774050215003945843801305023393524095718710504916222996636718052916123132803389305065276975492802040530187118359343210050645125449507754205429415067688915130503187625926690168550401767611477201505856872280066656600557529045153824100050078439518481587535503207817704942800508886683223210862053055331971285767004971434192875472058524895749825770985053830397550824049505916415661839609100591538726389588220058705515234548199005581975197851302100559107045355842960055839759933038484005355252501874878000536092535264845110053589791315799653005187582122734965330,
    151923440665131873305191755174044448580508707268290479298050900597815237778605090840626034524530503207124171395095450319301410443875305032592203788710870] }
  pure val RGB3: Packed = { w: 18, d: 17, n: 72, c: [1539936440172151790526101685402574260520517440200597600573951029521835280553882143439202570545357860019282126530848253863294806542976033811410963557366202693747470529761518055945035536930286182730054519183230535508214546201763454586087545441863515168590565291339233544510532930608278116060571914913894557620563230685941810930584710846012504470543243340389220253511781096847739592522218324619904210530171485254591945562248321150741560573507465692956700526969659847479255532472405668783355529826145611245680516996975314739135535408390057759440559033358318109600571114628764440290,
    1518188722988331088588402802822479420558972643202882550509625339144757300510381063984681710518429042810792182553219031807547120522283976552281895554208769084577650522113825327481710565226380940179520513410844115134510515969403084469200592620315618614550575793309759048030503529778331671439570783366954919970527076904972934457554557576762502020487145386793962426548883310074479480561460424588264710595766985688571470595713608633236480593353601385377600576239968162065170576843183150748270576373107187436840559082575943844150559576113773199190559407276573231120541852799003983243,
    1542439931454821510542367759419594975526739079928520804527299456312093373527444250345209440513474901591723523513428567363664037513645009480540700] }
  pure val RGB4: Packed = { w: 19, d: 18, n: 72, c: [151372130582799458705082558893532934290506346925275550702054481319768180987405293795375618616850523486309768477623051557757248390954405217242203002425360531128328293699076051113401726576890305131822023876567080506761314286440234052427523506759497005254127078545603700539504470420592360052579133050244437005484960588711348230541663364099603590055090999349082573005188798953825366400506468101866648278051082125254857307405153429608581970860534422021874918220053776973152498638305110432750805009700512284061508559738050913227575921638505062329728029740794512472232414015044053661601235050959005423979758040928860,
    151219419025314344805590713892603681900531312762713658840050841553379058815505056624462963746350508946452951075959052508792792692940405129272051429859370525277479740910963050998420198325964705283663366433296040504792580878193203050457025444967446105697518460534605000548911097713007520051070207274338601105371655973159687070514098694440808196052767287855372529005086874895119720990526155212350166340053559399572274038005911648134646781100590779610518237520058780180537056987005584634072022727700558952814362355110055849960404043221005357153492842366500536038512821398600053592035009285220005189280123393807100,
    151920684219199426005191770056255532700508825039636889044050900825983584789805090658877413833020503208402442154184650320479624379222705032484604215990184] }
  pure val RGB5: Packed = { w: 18, d: 17, n: 72, c: [1536351897610664047531344739248775066528847172576321790548568787896245750544151637307229430541831472007065196537631614725157636541027712981833814544753620302219266534267710825987585535949739037504136529440865070738226542172709457219393542646364064945520547244809017693645542799501209014446549399884058060370547803069170385350549911678569725390539588153529146500529024204028402100533985979484228120537478047863393500545803180079515050546774194784300865534186730894382780535244365083215523532321885992648974528677988727609320535396035852690280546449377798979585547986597220311095,
    1535171163315091000551480938429381060544815183740692460531529491839268675527788361309822080532121998828378440542513240687133724535754137979726400542591136127684426533193455727737850543786770150573880526271955823770193525847387257853904553239316155856780549489634287077733533876649116155866546605333704410630536624716674692720543529700935739074531837077963855940542944645937478230546153194498824057556079819079071080556034827835903440555680510640780430551371624611983370551459706121316740551378163978187220546188793649445780546283022132067000546248663920701840539614183025097490,
    1539763789645627245539747880035955235531989356571120190532188897626637200532250899822438380522800335552005788522791001312315196522903478987725567] }
  pure val RGB6: Packed = { w: 19, d: 18, n: 72, c: [151369581044360625405089643073115727490506272858482715545054478249818573041005314971831410518800523247310647755604051500988262590450805192356550046498850531642754803324220051172999309857758605145803954290654380506365190972261126052315519716604236605220727135722761100540333387804683190052711038561359714305489948207379747100541094231122995745055086118750649281005233169895804646800505961268027447067050940430606536942205106771941023048850535522831124293440053677599257093790405120419780285278550512550041693398445050852282415141912305049181459740360890512863716000777980053929092651563749005491607147792077500,
    151035851867571955205600267468885434800537988469487619647050725514373607502305044455981533757610505025163619261017052602313639727767405145960151783498530528247620141632350050898695634778414305275980250109460200505980444207600610450472663621333471105721962745629650200558823048832074740050858240537514290705352804699764549760512045778606467195052864515387698562405084946977963370830523112996839961564053602904805464773305913966519556086200591492420272335170058762781577612822005585169735947568000559034909078126860055846924283153154005357358385170980000536050500749452574053591105563605983505189397658387073560,
    151920036859259135205191732537485383580508826416614127336050898599923183274505090680051875290590503204693685697445050319479193972017305032510844411955474] }
  pure val RGB7: Packed = { w: 18, d: 17, n: 72, c: [1539108484843215663535618355696007020532678463616858583548864194726597154545966294042580547543465386607364600539862925802205580541905564278793060546004264330716470537832614552852300539623868447845423532798787726024580543432693759851976543038446960508760548002548488466740544731264492508654549604458644595006548156437130635243549912311938145840543490031059395340532258921522259554536012929810686367537058244697494060546956726440273310547242215667485166538048768809055056538389064281837160535202485023610675530674990673513560538592347979076930547786918341131474549632293363273640,
    1536808730648870110551276697427247360547509323594396970533876415564562200529843158426689403530852251035462663544394216644869270539632685281977426545069641728815607535639134730485090544878064684158125532285367906626130530347931745617980552796782527957560551109894217922220535259850777040713546900352080445420538051367315060086545184720278656010535175265033437880543417672588094397547073244515178975554738659945912630554747283862947250554391899564038240551066935288896520551139498972215050551060215832492940547005956310725480547078146141963850547046232693994167541777913238055486,
    1541890444703057680541878807601646323535490705796457960535638257698390350535713065220468154527148003861354925527122521627788276527266351816234720] }
  pure val RGB8: Packed = { w: 19, d: 18, n: 72, c: [151369581044360625405089643073115727490506272858482715545054478249818573041005314971831410518800523247310647755604051500988262590450805192356550046498850531642754803324220051172999309857758605145803954290654380506365190972261126052315519716604236605220727135722761100540333387804683190052711038561359714305489948207379747100541094231122995745055086118750649281005233169895804646800505961268027447067050940430606536942205106771941023048850535522831124293440053677599257093790405120419780285278550512550041693398445050852282415141912305049181459740360890512863716000777980053929092651563749005491607147792077500,
    151035851867571955205600267468885434800537988469487619647050725514373607502305044455981533757610505025163619261017052602313639727767405145960151783498530528247620141632350050898695634778414305275980250109460200505980444207600610450472663621333471105721962745629650200558823048832074740050858240537514290705352804699764549760512045778606467195052864515387698562405084946977963370830523112996839961564053602904805464773305913966519556086200591492420272335170058762781577612822005585169735947568000559034909078126860055846924283153154005357358385170980000536050500749452574053591105563605983505189397658387073560,
    151920036859259135205191732537485383580508826416614127336050898599923183274505090680051875290590503204693685697445050319479193972017305032510844411955474] }
  pure val RGB9: Packed = { w: 18, d: 17, n: 72, c: [1539108484843215663535618355696007020532678463616858583548864194726597154545966294042580547543465386607364600539862925802205580541905564278793060546004264330716470537832614552852300539623868447845423532798787726024580543432693759851976543038446960508760548002548488466740544731264492508654549604458644595006548156437130635243549912311938145840543490031059395340532258921522259554536012929810686367537058244697494060546956726440273310547242215667485166538048768809055056538389064281837160535202485023610675530674990673513560538592347979076930547786918341131474549632293363273640,
    1536808730648870110551276697427247360547509323594396970533876415564562200529843158426689403530852251035462663544394216644869270539632685281977426545069641728815607535639134730485090544878064684158125532285367906626130530347931745617980552796782527957560551109894217922220535259850777040713546900352080445420538051367315060086545184720278656010535175265033437880543417672588094397547073244515178975554738659945912630554747283862947250554391899564038240551066935288896520551139498972215050551060215832492940547005956310725480547078146141963850547046232693994167541777913238055486,
    1541890444703057680541878807601646323535490705796457960535638257698390350535713065220468154527148003861354925527122521627788276527266351816234720] }
  pure val RGB10: Packed = { w: 19, d: 18, n: 72, c: [151369581044360625405089643073115727490506272858482715545054478249818573041005314971831410518800523247310647755604051500988262590450805192356550046498850531642754803324220051172999309857758605145803954290654380506365190972261126052315519716604236605220727135722761100540333387804683190052711038561359714305489948207379747100541094231122995745055086118750649281005233169895804646800505961268027447067050940430606536942205106771941023048850535522831124293440053677599257093790405120419780285278550512550041693398445050852282415141912305049181459740360890512863716000777980053929092651563749005491607147792077500,
    151035851867571955205600267468885434800537988469487619647050725514373607502305044455981533757610505025163619261017052602313639727767405145960151783498530528247620141632350050898695634778414305275980250109460200505980444207600610450472663621333471105721962745629650200558823048832074740050858240537514290705352804699764549760512045778606467195052864515387698562405084946977963370830523112996839961564053602904805464773305913966519556086200591492420272335170058762781577612822005585169735947568000559034909078126860055846924283153154005357358385170980000536050500749452574053591105563605983505189397658387073560,
    151920036859259135205191732537485383580508826416614127336050898599923183274505090680051875290590503204693685697445050319479193972017305032510844411955474] }
  pure val RGB11: Packed = { w: 19, d: 18, n: 72, c: [151369581044360625405089643073115727490506272858482715545054478249818573041005314971831410518800523247310647755604051500988262590450805192356550046498850531642754803324220051172999309857758605145803954290654380506365190972261126052315519716604236605220727135722761100540333387804683190052711038561359714305489948207379747100541094231122995745055086118750649281005233169895804646800505961268027447067050940430606536942205106771941023048850535522831124293440053677599257093790405120419780285278550512550041693398445050852282415141912305049181459740360890512863716000777980053929092651563749005491607147792077500,
    151035851867571955205600267468885434800537988469487619647050725514373607502305044455981533757610505025163619261017052602313639727767405145960151783498530528247620141632350050898695634778414305275980250109460200505980444207600610450472663621333471105721962745629650200558823048832074740050858240537514290705352804699764549760512045778606467195052864515387698562405084946977963370830523112996839961564053602904805464773305913966519556086200591492420272335170058762781577612822005585169735947568000559034909078126860055846924283153154005357358385170980000536050500749452574053591105563605983505189397658387073560,
    151920036859259135205191732537485383580508826416614127336050898599923183274505090680051875290590503204693685697445050319479193972017305032510844411955474] }
  pure val RGB12: Packed = { w: 19, d: 18, n: 72, c: [151181379657454416505089191271995620100506242673769505931053938458639852047005313041470836910360523161517202325171051832997194200379005202316671964609500531684724915587875051125185888994973705136678789446372800506368613631405627052581788877659295705238657240151752710540354809414578485053248057907081956505472597395803177600541203305745712260053962859795061165005228927528739749950505783016774797096551386339250336931205129937866319511000535567150112142787052932655979666565005131984649258096100512414126870884355050872706060111870005058386905743434170512855720668970025053593826892437508305450116605740338100,
    151035482858751787505482787976337926860536039577179045434050708724215419965605080630216247321530507005229250457384052605785008306283005155973539594779330525796048074581010050903348956982332905208089788900772480506829012608559452050460529844575607605598906015150443100554622391020538810050843311176076140005309245208564270900514672376460270858052854167192305792605150632092062669560523692102664243322053612920981800903005907925288711187800591118928017233340058762254547582219005585820144905132300558957667845441190055847125600251565005358088174562741400536023083798522440053591258516117085705190146885400545420,
    151918610460799316505191746531182468950508888455382108736050898668518127231605090690100863904720503210902730716806050320061334987483605032511142019034870] }
  pure val RGB13: Packed = { w: 19, d: 18, n: 72, c: [151181379657454416505089191271995620100506242673769505931053938458639852047005313041470836910360523161517202325171051832997194200379005202316671964609500531684724915587875051125185888994973705136678789446372800506368613631405627052581788877659295705238657240151752710540354809414578485053248057907081956505472597395803177600541203305745712260053962859795061165005228927528739749950505783016774797096551386339250336931205129937866319511000535567150112142787052932655979666565005131984649258096100512414126870884355050872706060111870005058386905743434170512855720668970025053593826892437508305450116605740338100,
    151035482858751787505482787976337926860536039577179045434050708724215419965605080630216247321530507005229250457384052605785008306283005155973539594779330525796048074581010050903348956982332905208089788900772480506829012608559452050460529844575607605598906015150443100554622391020538810050843311176076140005309245208564270900514672376460270858052854167192305792605150632092062669560523692102664243322053612920981800903005907925288711187800591118928017233340058762254547582219005585820144905132300558957667845441190055847125600251565005358088174562741400536023083798522440053591258516117085705190146885400545420,
    151918610460799316505191746531182468950508888455382108736050898668518127231605090690100863904720503210902730716806050320061334987483605032511142019034870] }
  pure val RGB14: Packed = { w: 19, d: 18, n: 72, c: [151369581044360625405089643073115727490506272858482715545054478249818573041005314971831410518800523247310647755604051500988262590450805192356550046498850531642754803324220051172999309857758605145803954290654380506365190972261126052315519716604236605220727135722761100540333387804683190052711038561359714305489948207379747100541094231122995745055086118750649281005233169895804646800505961268027447067050940430606536942205106771941023048850535522831124293440053677599257093790405120419780285278550512550041693398445050852282415141912305049181459740360890512863716000777980053929092651563749005491607147792077500,
    151035851867571955205600267468885434800537988469487619647050725514373607502305044455981533757610505025163619261017052602313639727767405145960151783498530528247620141632350050898695634778414305275980250109460200505980444207600610450472663621333471105721962745629650200558823048832074740050858240537514290705352804699764549760512045778606467195052864515387698562405084946977963370830523112996839961564053602904805464773305913966519556086200591492420272335170058762781577612822005585169735947568000559034909078126860055846924283153154005357358385170980000536050500749452574053591105563605983505189397658387073560,
    151920036859259135205191732537485383580508826416614127336050898599923183274505090680051875290590503204693685697445050319479193972017305032510844411955474] }
  pure val RGB15: Packed = { w: 18, d: 17, n: 72, c: [1539784946236559140536754643206256110534213098729227760548093841642228740545650048875855326543499511241446726540371456500488756542130987292277616545650048875855326538611925708699900540175953079178883534310850439882695543401759530791790543108504398826980547409579667644186544574780058651026548778103616813295547507331378299120548973607038123170543499511241446726533919843597262950537047898338220920538025415444770283546432062561094817546725317693059626538807429130009774539100684261974583536363636363636365532551319648093840539296187683284456547214076246334313548778103616813295,
    1537732160312805474550146627565982400546920821114369504535288367546432065531769305962854350532649071358748777544281524926686217540175953079178883544868035190615835536754643206256110544672531769305960533919843597262950532258064516129030551417399804496580550048875855327470536461388074291300546432062561094817538807429130009774544965786901270770536363636363636365543401759530791790546529814271749753553176930596285430553176930596285430552785923753665690549951124144672530550048875855327470549951124144672530546529814271749753546529814271749753546529814271749753542033235581622680,
    1542130987292277616542130987292277616536656891495601174536754643206256110536852394916911047529521016617790813529521016617790813529618768328445750] }
  pure val RGB16: Packed = { w: 19, d: 18, n: 72, c: [151416988681673830905087549999163414150506302370135600684054608167811879015005308099811244631870523333809941523110051504789090767427505208594570966872670531563901643818900051099067217693374405132935684013764070506399033249759134052413434980482464505247362165366046700540241079031663890052397903162563419505470399801744528670541064521635068707055354315655274001005218561136010763000506141924791458740051038939750585578805141982979038333600535388305588422680053992664274029137405130417382528719120512627813124463336050934507389708156005061945057067703486512833741708028570053625326532321570005432173911669668100,
    151053004884417437505613955274134845100534399743128966010050748809820363357105053408719992977874508019572101651723052591105755324968305119815754271951240524969515343473248050904363677653947205302733847167942400506610358555080590050480351869093468605715697070482382800552107634543245270050888955147836863305389837813472398500515300696833472574052863360469388516005072422153586829690524420496570164277053591372638713173005912062852226696000590933724470579050058764778515951248005584253971793246300558934250403920440055847052697663460005356896225454624850536018680631632500053591076410659031005189055661473558180,
    151918670907260342505191725485348323450508810022577441225050899179891911455305090670558534712810503208542143595881450320324874823237805032508212286049640] }
  pure val RGB17: Packed = { w: 18, d: 17, n: 72, c: [1547163112063826895539190016007810474534535896402387240574231425797191770563583269888334050557137016603596680548266351868657130554725969228450630564177239316566210542772356180328300546019200268274535534738672472312370557883149688616600558434138266572260570461170413763600557739591619091520574821398125993420571012266184609520578642149129296370555717239602974170534195051880889990541856751932948283547199460259077520567063239226711660570248901275218660545681926979269105545118741706950560540185584043589340534307350216394170545400324750541626567689004458034440572421692805309300,
    1542073795023064980582892288270075900566336415379279900536903365415731910532405599872993500537889571248627896559486355356467730544216287891584843558645495331311300539681995574031925563155047951941980535175509046964215531110536044081244587927885758261690577824422585289680539420580827248410569606160387639370548576630688785300561816749292977780536432503349478984558146149150856070567444468177986940596521688492365040596410645818535450595055507950833560581326374652908770581598074232144690581350530183717300567282288034527840567520207679838510567442328493563030552694497130694170,
    1552994519387690730552979472886713100539284563440303310539594357718906090539721486845943127526638083750639360526621172457582820526772544487344313] }
  pure val RGB18: Packed = { w: 19, d: 18, n: 72, c: [151614282013610698305086874768666696650506113156596883860555170149895188225005307276232445176500522760916194364836051212861468512546605193711762260066800532333804755259710051094005232899000805148570246296172130505922122144542951052240202752989808305217985624691665330541331723642888140051720777537101520005505024997015967000540717276401588476056522371156205571005217242831388609110504939052024375773650706815951696330705104822716952273410536888224874434633054855378905018850005104320347242497140512514396255419210050969176743933366005045956051564526550513290066071559640053727604062004420405502342313409119000,
    150825658332684250905726901212098610600536902286522926003050551365532886610305027082220947711344504828243510814141052717580759887848005094156426208207130529348183252194570050796606606664052605380099430194843500504592312506019580050460239950301224865820780453226664200558516751612497160050579370233676695665452229040368868600510353370416781582052949554036540971005006144858033733436523916902021306036053677468111512870505916197255110247100591541792866959500058741619032489385005583089504965461200559074820330106330055843956069149527005355952531481381840536072467369947770053590421858864343005188171862102078600,
    151921757433381080005191724362584806800508744494704136158050899543403004120605090729107388935000503205507248657126650319352101374689705032541451750316266] }
  pure val RGB19: Packed = { w: 18, d: 17, n: 72, c: [1549588011737947410539073487634989800534133360418000874577590562063589450563517845328827390556593334633802020544424207803907360553189906600590500564774857460384080542696480437021680548029962485886096533719094843573090556248443632786360555660765492239750571189630249267970550821557719200540576893488997333110570780706354961440584843290467495850555587740436806390531445262974161126536093210656158936542000269935816587568142547875668640575738480412443180541922736616517470544962449437415080540752569242247950530585559270810890546014536720870486568417200321027550576736132713823120,
    1538316405172755110588454779660664980568152537348481070532804869393339410524956648389673730531172028428822995560586779608438750540302028893864367562405597688236970537792141456373435568932179005977530530577128995364390530602943306880753592685198979013260581375259830896860533435969074793376573696278375740250541800866967283220562525926720176130514106771639736554557682006020534780568061799771053200596689737092678550596658096022824350594958826020251540581263993980609000581672876157086320581333956848094640567213806997513630567558969877872300567437600216264710552599615588686310,
    1553027292089216950552979353558396520539171922982400280539600513412899190539731350049381614526628389996772190526590049478696043526783069936749990] }
  pure val RGB20: Packed = { w: 19, d: 18, n: 72, c: [151270967989709461405091788387159786380506226885197254287054193708999860788005320914806839096570523116122458830748051701671539930009705191557959180960580531746710420268065051122510801081649505143393681930529100506343867743483089052504894414621441405223339331084130870540432947154376560052940685047159222005477692974819976360541218937632915653054492615450729164405245480115659083930505676367986152219051237561618080937805108910745675814820535672435226378450053324868137606883405133293229747771160512380931990663978050889161060244981305051944345456467950512883550295769916053638169124606415005482093545390112200,
    151022694241491382805533932645009564700538782570160851810050693915611812681705068840980727912400505231805867092749052614496023702935005144217120544320180527321538207213870050898470570593310505243240288552765780507086617293682926050456818044910862755646364681128065100558947068594388270050822543987450966405337741590486071800513436939651908902052857582121766151005120661801751123120522500017768955100053621051285916465605909937626320546800591440126234566970058763217961993083005585392462664681300558999272456156300055848597190456524005357722924959498400536031146689405336053592240125965644005189779533447704870,
    151918577116554000505191802166018269580508860357349973344050897828585408420305090720550497240050503210139798857622550319580998224860405032522025436830370] }
  pure val RGB21: Packed = { w: 18, d: 17, n: 72, c: [1531790474269565820526532059710326410521387029927319523561706708914811100553182908729506780544322008933749020537385977641610896539928030603324555552864723059166370529670719060702233533994257877765627521609323839387345546344065003981270543482449990636457560467173137547030550663316790576540566336012698514970561117402118310470564112693933151090545826868062775233520315006601767020531323512915493460529176909969296855556402191230139350554239930654370030532642414323742375531330987019121840526067551587769650519337937600949281532031354916295024557022472785305320566674818587451490,
    1528174666473212484570567315601086680559083303584589920522713364837852854522613067106288530519415107037487125547459882503750694534102571040803990548634818966500254526218826733034310545594096767989273522980262683708608518005820531074224578471108488811390574555383258329910524963796231712954554714511303765710532788566196495506549862846436640534530885952794564114543661795329141430556873263975492860594891798903667090595150120526486270592927970416103360574268381402635550574592057528379050574230824441571410556489851039429550556716581494179130556621419820056340539721663716652866,
    1539962729608800607539956301528758364526016608860880497526208417208919865526360133067182490514801000765795320514764258427701715514908432789093945] }
  pure val RGB22: Packed = { w: 19, d: 18, n: 72, c: [151390059813671264405087054161316802820506096492041269936054536234647839871005307621936922990670522712742989874200051475713716472846805195833231595345050532368641939930690051167530535024573005146218513296132170505912540094640228052307024722794236405222332244587982120541365564270838550052630527455321793305499553743328343200540753763286178457055206513170097322005217902228468935300504838673911191696050918078815437543005110276413487698640536940823810005124053774473756267668005108583184749970090512456360342167075050860904511328045905048372746208063850513297309537437202053917387604897126005491837023722606070,
    150820274671385403505611076607382653200536570779378358580050539973734333720705042762004191502986505297475084242829552721907630311982005141938560617608840528679975943804200050796023794099880205284565651924241100504926158509911629550454828924482753605730727725966951900557595016660154410050566155944964348365360779216124030850511121547491322553052947318155017524005078298691296437930523966414696064203053683534436912005005914198713047157200591452038344229360058740871015804554005585005632612728900559053234084648420055843966885204992005357244428193232430536064011040337760053590469165138231005189297108869336570,
    151921258654844639005191730043283658530508819570838304401050899462893452849705090734553012528530503204689869103375050319497101982841605032542338236016150] }
  pure val RGB23: Packed = { w: 18, d: 17, n: 72, c: [1540782117102179120532967510460860916528039072362647420569815604896394230558516803143464550550979464195455200541905756794074560547657381595855480559886551909508870537673070792579440541730695214224867527651296523624940551342651680649990550487391510846020566949136298711860554498319244514050572944393404862310566497222907163660574328901461113990550027620971232990525243428722054090533773945856749066536708347410147013563593405144699700564218773170210870536451068341072090538798431169922515532801116668706640525240110225172957539967851988900294565312819074562460572430041718225850,
    1532088183833301803579941216718314910563303051218389660526534184418717116523864572548608790526304577373252560555350846237541820541170969073420250556681965478203530531653441229475626556480837312062640525449873513744450524543186267122110586710306418098340577818713936222770527111450902771367562913832418435670536850105595783500557389238658635810531416741441712626552239786739713980563510803402219100596004410303009050596019763446904300594066277906576210578372492327904540578708177747557910578335400204983610562632894658037720562902805031455610562776341279622350546927679794879220,
    1547245146346402056547200878026295423533163314773614927533460917228637127533593891873332860520932052800504597520903174103243072521078531106747572] }
  pure val RGB24: Packed = { w: 19, d: 18, n: 72, c: [151657035564672915405085828654088006360506228215488296795555287971229385869005304071594860259700523074000973172570051206792752790154505198506296913176870532375199588015000051036669321973123205145404556596335400505711054052813063052310585646205585205225030612872530100541630070739374680051457701203386179105502010878134880700539891851028867540056765840800907088005210501696334145730505584541845163571650772755077530311005114412542058463740537204881428084846055125674531111208005104477211430434760513325943727553610051033840065362360605049016495403653645513521773787666420053495824847138751005487384378803268240,
    150737649831672929905740972765006426300535712810413693230050578733885102660805033193961276687806505638636699788862652745955975865800305073144331020629560528607087114453360050724462368226468905403178238156921200504540503021453734550528722629972545205819177192011612300556575870913234590050550452666523945505482796034840056500510990250155797582053049022538783301404994412866331116252524417642533596667053648549756876620005914852522115490000591392674873642100058735738453785725005582345312048434100559053073625691310055841456835194916005355565972703067900536067136115569237053589197784384100505187880086485046060,
    151921656928217100605191635720207194720508729793356453314050899862388762357705090689036819404180503208390027836582050319569174434647255032552783477147560] }
  pure val RGB25: Packed = { w: 20, d: 19, n: 72, c: [15447406531690908660053707459469938652000533522471615313230005589671875906643700055210883720386348000548733587613020396005409928872979655600054691028005312516400552880707110697220005392298212140863700054318573176775379000532589277433274555005487503652659836300054842907530944680000555990213080497760005432154806535518630055831887273083433000555461189046693740005620495876390705600054761964816444820300532350190139937750005358956980451520360054037146874250080000554597562065229840005585783304362185000053931956721336814000542155675891269256005391983349940718200053097589455471886000542327500854817160005538276072960211700055795041966413859000,
    15353783680063858960056318978890537343000554091432248250760005327313035478477450052707188625320446400532452970291693733005508575248611829000053528467855428911000551359387599925910005351784687842900100055559288013940512000530184341796343230005317699879186546960056445000232008713000559810822404370430005321966241897181650055783260422080033000539904706509268495005521423791132291200050015313595953764672549422737151566437005543560474032972700056583931547608919000565826573123149870005652583897566037300056017196993382997000560346490416403100005602105611230751000055403726068228594000554213457855927060005541532815254142500054624707974330875500,
    15465187208578846000054648544105809429600537266564053933354005376104861265632140053769888631085146500526747272593731370005267096062525132740052688539809526709000] }
  pure val RGB26: Packed = { w: 19, d: 18, n: 72, c: [151534834148949363005089583752781120570507074636465553225054939438322273497005314164151912610050525549833532955996051394066359505847805201667837842016030530186483228873034051033455561681324305136735679519851720506610031813806236052430067767569337205238184128726320050539120066440131573051863971161499562405471388893861246700538891533014738794056041270236328651005231262659918414960510753649375585309050994038475642275405129112962890675030533522267452814550054600727392446758005133601636698092700515662681925846528051018818233906821405058387829143872980512734894580819686053403806342649642305450622421923508150,
    151197261150281901705669840692016544300536276650697673930051233613701324068605050834365089790670506938787892667501052439558375333907605087293028217181210525763400623581280050867341228891808905355971589268220700506975400740136506050757272256084982705751337847293678500554860457687804360051400321527710643405446076062336120400514776196481496073053037616346254915005035761277284700466523557123750607840053321147836314815005912038757085751300591129820497392910058790157816260743005583011042867398700558955936956812890055844513251059016005356129933175024950536021423249815770053588129703881924005188416184131812330,
    151918446581072332205191420685737326870508770324023472590050898538758827772105090416120369984240503210669508158213050320051082220404405032481802304872340] }
  pure val RGB27: Packed = { w: 18, d: 17, n: 72, c: [1543827497963231815537559582434433150534916080232804260558116977015087800552510509349003860549975817933816090542687439900020520547101111036472515552019296936200570539194049916408513542459111121588020534170059062524160549364206145028490549119991499964855555219064061634670546151716649758120557534890052041030555146476026080600560631192184935050548761102954795600539652821921378295538746937491699800541784020780373620553309914143716020557232510194145820542185868747221034544068717042234280539029843635310846532826195038594640541622560378235307553498297418356880556974367371075610,
    1540900303621626570561924049919458660554285065966090650541249853728683056531356459096200273534702430308238935549411719161888540537265927933805465550077506554305510537193240858793214554051348808361970534760365283716316535670120648481690563364159361953690559426222657077580542740326254071100556848290899422980543376363578841937552096298381138000527792386165625430548985694680150140553195045075531270565800547211416400565790324181863040565336509013833200560186253586762440560325904643214060560217100993772330554056844280634280554197780415155840554149602877976620546281378779168153,
    1546498571766226920546471913059953540537319014319724650537593768201532260537664630837370810526754022334975736526723913983318426526864584156033310] }
  pure val RGB28: Packed = { w: 19, d: 18, n: 72, c: [151550543407307362305084764738646003690506404377866159960054984969371220422005300739364539842500523620744541414980051359502294060690505204437497942738240531465389346622086051044183514845912505141147500969822810506344864964344364052394913983434917605234186434698594460540250438048289466051833082781911353805496799173552033500540607778489220490056136184996197288005203467857370670300506737007168482076050940297782896326605126709725487923250535343000345782990054652924147487914005106174295243967650513150265130146090051010267330715821405053183329305054663512904053567849977053462211290942030005467487174467131950,
    151035015513573634005680893055796925700534311162924542743050797670278685699105046399345436231280506680814523483171052588325708613593605088308187345401750527568326879923800050876933186697412805360882116913838600504604286351179867650526140015553645605764529350467761700554152295549608940050920943969920345305447669935326820700511952446716995646052911244789261448505029963419383602974524975428070835580053559515969855323605912811433205021900591199683714660770058764862265611330005583015672609333600559021883169702070055845999773492171005356090826516199830536058355498499417053590421603123699605188365655594198660,
    151921369760496701405191670599863722260508765205685204278050900177552062665405090636218642094200503209727121810804050319855255411436005032509888457668060] }
  pure val RGB29: Packed = { w: 18, d: 17, n: 72, c: [1543948619008943050536933759627811730533825351827177036558231321721588500551973387081604220549018525018412085542391179968034176547265970190955150552529681904925640539313069182600540542834085505110560533723833435511020549186654479136616548913940543917506555572138029493770545950764956609320558188804760791190555681748093328650560826234456171680547208496496605673534378322508692030538110903536567386541563543603535436553962814667772290557372878092251880539505510379476420541999534458726945538932927955472413531831944572963620541777431661231235553708298064677720557431440823221040,
    1539211425770919706562129162156867160553596924151812010536250516141413980530407226704794615534286575824013193550134221757146040537396900202722630550905950847193670537317732957252453554220679328474960530327765792367173531718318686649316563582680622856320559264000631055490537873837799150933556892633289177590540880630331032375551574282282706920526103198373784614549698220162544665554050654789005770565811204959807700565799968742260940565300256719622230560186352864576060560339883977907970560220280520441090554055487268222720554210447999344890554157495255503030546278149949585330,
    1546516919805654510546487634012638085537312402641928066537614463520495380537692263952866430526751232280042564526718101869192470526872823977433670] }
  pure val RGB30: Packed = { w: 19, d: 18, n: 72, c: [151623351578270657305086422398868494110506404372489964691055194800145071196005305901860553821400523620729087353007051216540145918130805195620359558728640531465399326004484051076958918912535905147363263249352450506344863111595075052264504542010311605220721294247366140540250446588946930051654867378875317705504056638981041800540607792822546884056573182026032716005214355556996114470506736974997727013050732778965886523005108572489797014880535343014277683965054919955279860445705104148171017734800513150244571539190050987856610122367105047114898504541700512904054646069277053656385162528538005496605355333536700,
    151035014335990291905728982911045504600536417883190284517050797666832670927405029404801189600510505144652060228127652588326844279339505088357312922950350529072208453983410050876933338964837305385543497784533000504551727165626945350526138130844254805818323840302707300557747651800793260050920940243627952005460193594208504250510579685711844913052911243692519686005003884475847743818524125861949406702053559517869001002005915717429371788500591483762425046200058764862073637375005582888926686717400559066832823237590055845999787813543005355854719965383870536070686261713430053590421622394770005188101260651184820,
    151921742842799015205191670601917178900508741332480196634050899682785515559205090636220409963750503206426211131483550319435774540275665032509888665689000] }
  pure val RGB31: Packed = { w: 18, d: 17, n: 72, c: [1544495413798701766537152519408956564533825342692797490558745406613967750552182626342197910549018517053895100541086876051919040546733552431922626552529685808745830539669948804092936543344322399632257533723830262421320548505485846961530548194316450989060555572140660547480544725008899542124558369567719051850555681752471045490561687591759688360547839414899215804534378270171585440535304898991097370539763727379090200553962819537746660558067732760921590539283199140564634541999516073955660538675369801165910530565244786109020541777432642402956554382576119659290558183941947177890,
    1539211412663095185562985061311784110554333110371216450536250467743825776525927960184269594531482094207953354550134227119084600537403204174288790551557303493984590537317734923873286555038616823737670530209697936740787531718280903449770564436902821536160560067017188173850537873791728090683557235777791545780539464389997801870551574277658153560513163719379070776549276221130392317554050661381946930565851208559111550565839110522639540565300256444103000560183634710513280560349403657793020560220280551069280554047291229220600554214674587936680554157495321844270546261241458637076,
    1546519259645586110546487634141731937537281518707441000537608218958988726537692264174580050526741454690324570526705642798276374526872824038442410] }
  pure val RGB32: Packed = { w: 19, d: 18, n: 72, c: [151497234148180459005085823859343739940506698655177012625054832198675646335005303440488465486550524477490524313820051451688230740775205207429903894447100530762672266356306051032466832549118205136636767763059500506600145986095328052466830863361826305241860413961559440539487677231500280051988976081776138205483888945197587500540141521993346563055818328044178513005208969065857297770508524338612434484051062124620966680705135921486449701560534203092627370630054439206902723815705117450107544400100514047556001987600051014196074858626805057925668670982484512688674304362182053375493775153239005447791057415468100,
    151168950430941675105647954173560461000534088053221078646051014759592657750705056262096025864490507481554343235054052493832778399664405091646453041938690526198719316301270050910873576673701305341446622303071270505522949914284000550612029708632807965730464491297963100552773163237540420051191598780555665205434777706957014340513646405611492207052924638122910402005048483713050890610524829333192288355053448365814684490305911172997575769900591043245342504580058781500690880225005583215881701592200558976419895035930055846561545917391005356303457819366230536038775087282350053589864867080727605188581135540128980,
    151920096040948239305191585629106707200508782794854686428050899785806208586405090540822482184060503211370871761111050320121219213390705032488815530576340] }
  pure val RGB33: Packed = { w: 18, d: 17, n: 72, c: [1543532829990030775537073963479181504534315776232168820557843532824976420552083294019909620549452582292835490543166511301429710547441721786383410552251776891442170539183024460437410542450576464143810534153700645896196549547275618867964549306578191161576555334965522290320546934055283277590557860766049382540555538540831226000560160962852414960547531184842871216536997313043400970539509661124283100542388687193150165553557987078888720556788080699421070540676466284955180542777682991150350538977547822620673532740979257823920541579914358643955553395237055444370556895996666330250,
    1540621275708150590561507859904229130553516407856242220538983935054912666532429432103375320535535399529679160549680080652091240537818334326341890550282300113636970537748717296753180553536885275382480532232146720443110533333303073737860563010538323983740558942019752527020540844982737798710556529459112563200542435660214997090551630632150706780530862169078527610549626639795951490553658827542438960565788594931879880565778362409997800565324113674116410560190645305592820560330248277036870560221481890292590554062863892574800554203733581445680554155578530578470546291913662726586,
    1546508928247609170546482291068640980537335109317642870537609519459080900537680294422328940526756098414693840526725994995172690526866642172128496] }
  pure val RGB34: Packed = { w: 19, d: 18, n: 72, c: [151609967701840058205088390487843436200506698659533354642055157093090647114005311433822402699100524477503237793596051230330918672250505193777744914168580530762661421517260051083214954807958405146261098043693750506600150199934021052264909832525875405221011375769368270539487665105610330051713033481752682705495126394736086900540141515990544385056494958507173896005225827004617583540508524365145834933050740810277767679005107838335023055680534203074686540690054852668505073685605114312686682861870514047568640723130050979496257948578605048529455125233550512688670674163643053676145006722040005492876885388938900,
    151168952609972056405722414751134890500537350016570915673051014762886776817605029948383171486792505103006024188573052493831288217005205091722480294395230528527298064486180050910874198567153805379631432722235650505441548747769728050612030931292799905813757886443996700558340094884937390051191602975641697205454168930852524850511520841206973659052924638189391540005008104021009524454523513903522335872053448364148935344505915672532168605200591483104566134300058781500954509971005583019631694360800559046019099646240055846561558036080005355937878490477400536057867971105195053589864860246562705188171755678059880,
    151920673734822299005191585627926347480508745830441357136050899019739026586105090540821073861000503206259868853106050319471706429125805032488815191251810] }
  pure val RGB35: Packed = { w: 18, d: 17, n: 72, c: [1544396645041943406537407459535521960534315783354173235558654540711306520552403089316627390549452588625400140541218679056329705546619418898012130552251772555475320539736946447590390543255326466649920534153707623156987548507660253070830548210255794883916555334961716545000545138181849200265558146774211882010555538538977104520561537625609081010548471990567814677536997348185872203535425812434937715539685234456283824553557980605023690557896183036402780540361317345891730542777693623587290538577937494552117530871972938141190541579911003557496554449233620149860558090033048037050,
    1540621297421447650562871498458598160554645737144137420538983972382922116526098512963533643531396757320192714549680073360920984537827771708428115551325124978785590537748725061601080554847266513993550532074440471282360533333324665498587564366582653500830560194611820186160540845023812519543557071857405848600540452089728261076551630632429795480516358376719830164548963343304202284553658821579065030565850591464210380565839020018384680565324114051767280560186437760552800560344996499815380560221481916207620554050178538309900554210280861823600554155578507048110546265751926589116,
    1546512553429973885546482290994404624537287343292080880537599845694107403537680294245541010526740961771044570526706710494690800526866642072562490] }
  pure val RGB36: Packed = { w: 19, d: 18, n: 72, c: [151291415827556071005086445283368507570506282648349936297054257480978678631605305975534571309200523270337246913927051589474136153940205195463917489623800531698443789276810051201724256676937305147483213920041600506295934618020055052332877688791726305220469889005872300540457212549726224053034582657796774005504227457121062300540917878905401667054627933429865203005214511722150252830506007389269546442651006491970004891005108238380417306700535675566909578330053296204553404711305104069604704321300512695114573499952050811394339401724105046996428469838770512935559884443820054009221173509762005497161498056220600,
    151005200618668890305560462604636649000536453282835852700050718353296737359905049272038274263060505116271475058372052615506381335820005163467257335276260529102350041543470050878463165087188805242329296446878280504547168831098147050484249414889458105691910627349318500557812083688823730050833546915419675905319987031229179040510550385980345373052888527688955102605109955552751994520524112536677251337053602843477308862505913393069415382800591489044422958200058760237442588481005585864765360589500559067751948645670055846262998778885005357818762898435340536070967012125730053590835349374082405189795441079584700,
    151921754079405591505191715850604862740508852616191658673050899676259509293305090676185072169100503204213990369114050319427834234277265032515037937287036] }
  pure val RGB37: Packed = { w: 19, d: 18, n: 72, c: [151291415827556071005086445283368507570506282648349936297054257480978678631605305975534571309200523270337246913927051589474136153940205195463917489623800531698443789276810051201724256676937305147483213920041600506295934618020055052332877688791726305220469889005872300540457212549726224053034582657796774005504227457121062300540917878905401667054627933429865203005214511722150252830506007389269546442651006491970004891005108238380417306700535675566909578330053296204553404711305104069604704321300512695114573499952050811394339401724105046996428469838770512935559884443820054009221173509762005497161498056220600,
    151005200618668890305560462604636649000536453282835852700050718353296737359905049272038274263060505116271475058372052615506381335820005163467257335276260529102350041543470050878463165087188805242329296446878280504547168831098147050484249414889458105691910627349318500557812083688823730050833546915419675905319987031229179040510550385980345373052888527688955102605109955552751994520524112536677251337053602843477308862505913393069415382800591489044422958200058760237442588481005585864765360589500559067751948645670055846262998778885005357818762898435340536070967012125730053590835349374082405189795441079584700,
    151921754079405591505191715850604862740508852616191658673050899676259509293305090676185072169100503204213990369114050319427834234277265032515037937287036] }
  pure val RGB38: Packed = { w: 19, d: 18, n: 72, c: [151382928863473634805089577586278710940506176696757783025054515995302701043505314792083171821950522958776863434088051485212690537166505192355418351632200531996182011095403051168748383697192005145902030886385870506160036751171457052311300062997891405220599651724015630540816246854894000052657142314530953005490372380670155200540994753958688557055164472638400335005232798725507760400505356332094966652450927545286493796405106645796211432830536193843931587370053741758202455694005119990565209934230512437241071692935050858599764165946405049071993358407040513057804425034578053918363857532765605492008469725660040,
    150937116929372291105607185749210428100537968812532551194050632055223927754505043496099894424836505013647659612710552658769875646808005143150325368506600528282622138117350050854157940074546805281653176639313400505943942626529291650458263824296851605727378140266214200558829948642561250050717035912745005605358210465258202000511995850280885878052897038451086505505080645808845583780523130487503594532053644919247180330005914090511401480100591494888557463450058752494445030583005585056771870232200559036138654686180055845676043020955005357281887171073560536051126045912140053590893401110419005189330897696327600,
    151920083379239713205191738602103143970508821948498227122050898622533078995605090710139316699930503204734412132469050319474132840066805032525394138556006] }
  pure val RGB39: Packed = { w: 18, d: 17, n: 72, c: [1535218808356341313527209696507930990521493375779615710566948741387218720555429359924438880546779319661725105536691059389951086542441321490741490555909995908894850531928486723270500536319505441129013521455243577624710546950336734425613545769825825279030563529838488683820550631907452226430569850679677626840563674178276769560571731802050699720547134673757107140519543407213039826527796280265346635530239538587657944559663802217564590560712529005283900532426649024562565533115355451700046526508562865072927518405632080113960534068258487574365562193288364599400569970306860608360,
    1527970836241654284577899572018480030561178761043260990521820312244860107516910217377268044518680308148087360550648589379594040535925186927410100552356047455532140526423682798256770552239719232351580520955406076311095517547304550532894585333512505580580576659951333364260523673073477994588559340455116626840532421559147880760553032807883739800525496433344319475546969688075247207559884223818182390595646256105256340595690845407504140593603973387986670576444921135606950576796340740020500576412426711519380559259626994180640559540232754510800559416850733583650542069359546865680,
    1542398800973183170542365726674066806526955450620638820527262718818400150527420101626277615513467062067586330513434245212274779513623278372956620] }
  pure val RGB40: Packed = { w: 19, d: 18, n: 72, c: [151472115731603239605083743268491268000505865708347445547054770329151356337305298467521367658200522034000339644122051349082890266185605196752359621550900533017804348340535051170556066146109205150222313226624200505615575953542839052225132483708805005217725708722128400542149023187153500052359521810311650505519029569433950200540918894580402170055693195898517140005198969083539227500503420608131884703050767366523358743405106247115164784100538071625996645400054125679816517522405088297227465809980511896107582548308050870110576357400205043810659397208660513564418554887940053983092662058138605507813386474510200,
    150671561094045063505659000750393075400535399871534403354050351852284759223805030734733751841548504916407444241284552816309840752094005132676337883488500530187278921265290050742821303873390205316166565086371000503187751192408245050398342871846274605776656329637308800557529443190975320050311997151622564025385173135057095050508886991999314386052966124358267108005050493710043351350524896047277316233053775185552494233505916123033773577500591539739602707080058723907748062230005584566449515546300559107709614624160055842638595912318005356868705557576550536092942176396870053590566917494574005188938760738741270,
    151923462338069986405191778054973977000508792367061848660050900608005363234805090807843999195420503203106071263258050319305070131051465032564721066077470] }
  pure val RGB41: Packed = { w: 18, d: 17, n: 72, c: [1541846336454727530532378584742407380527538912333952065571422279394429120557707473968564930550268971137726430540218191777150450547746386568400800560418712746221700537704352672232820542233342006808955526998580294662010550493816199975060549996886507482690567513136313378330551858353816232320574215714894804120566609949711117940577403168094579760547990243628478246521549967862290068531117383456670356536079429507620530564460929400937430566859503874594380533167659762114804537982206928789120532947097080526483524116646657944807540317798273017696565798720876034040573482113012086110,
    1529286512939748430582726789103054650562363135486120080521828303979529560520526487394070633525414596691981750556203825999196640539914263202696150558005924726969160530660786615270474559239081228537480520870074420864668523095490192491994589142808785445170577771486017740790520667115177239415564802969573669070533265305824276650557544105518141010525724859361157070553139358805131490564214176207399420596094853825679800596060236654063990593981183613700590578338951168086560578734487429289650578320509882046200562592529032506110562915383402709760562766736147467300546874664685334033,
    1547257189906909100547193663982783780533103780809175815533467262300614680533593207816294857520915725203465970520885843635018408521073463691853770] }
  pure val RGB42: Packed = { w: 19, d: 18, n: 72, c: [151181407055679275405089196809149613020506242856828818077553938554033152714705313060028548820900523162155787852157051833063099016412005202323866229910250531685132897487580051125221286987278505136685444504183680506368876156990715052581871219615738405238666699775326260540355302412027570053248186414041473005472615484936090200541204212083840630053962930986524819005228946334530818090505783500904790194651386391477779108005129940986904411800535567427567400540052932706608474155005131996346810202230512414427233921439050872729551938846705058389595427380730512855848908531453053593936799105474005450139683577400250,
    151035568316979060805482798080509090840536042094891246510050708797043777373705080633454638159620507005317710940283052605800582255183305155979658642119000525797158622887284050903396998733602405208092703866234460506829832658602901050460546555588101105598920267800101300554625795922775800050843418338860346405309251535596891340514673407674133960052854201225404930405150639305788066640523692745045774247053612967216890288005907952498585217900591123239865379870058762436346658647005585837837626843800558960426616998860055847243317734291005358098996215596300536024767217541886053591330457933481505190152647674579730,
    151918699860472568605191750361857769300508888725644123473050898710205771836305090691895333969390503210999420263373050320076302924663805032511782310263000] }
  pure def rgbTable(k: int): Packed =
    if (k == 0) RGB0 else if (k == 1) RGB1 else if (k == 2) RGB2 else if (k == 3) RGB3 else if (k == 4) RGB4 else if (k == 5) RGB5 else if (k == 6) RGB6 else if (k == 7) RGB7 else if (k == 8) RGB8 else if (k == 9) RGB9 else if (k == 10) RGB10 else if (k == 11) RGB11 else if (k == 12) RGB12 else if (k == 13) RGB13 else if (k == 14) RGB14 else if (k == 15) RGB15 else if (k == 16) RGB16 else if (k == 17) RGB17 else if (k == 18) RGB18 else if (k == 19) RGB19 else if (k == 20) RGB20 else if (k == 21) RGB21 else if (k == 22) RGB22 else if (k == 23) RGB23 else if (k == 24) RGB24 else if (k == 25) RGB25 else if (k == 26) RGB26 else if (k == 27) RGB27 else if (k == 28) RGB28 else if (k == 29) RGB29 else if (k == 30) RGB30 else if (k == 31) RGB31 else if (k == 32) RGB32 else if (k == 33) RGB33 else if (k == 34) RGB34 else if (k == 35) RGB35 else if (k == 36) RGB36 else if (k == 37) RGB37 else if (k == 38) RGB38 else if (k == 39) RGB39 else if (k == 40) RGB40 else if (k == 41) RGB41 else RGB42
  pure val SIZES: List[int] = [24, 24, 24, 24, 40, 380, 770, 10]
  pure val NAMECODES: List[int] = [512136106, 844471179, 316645893, 380836058, 308274633, 634967182, 806198739, 927419729, 998069917, 337196518, 245023453, 855723075, 207966159, 360445227, 126377794, 829526510, 971545727, 225794258, 50035113, 353815443, 353814934, 353814672, 353814163, 696360389]
}
