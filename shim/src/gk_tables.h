#pragma once
static const double xgk_15[] = {0.9914553711208126392069, 0.9491079123427585245262, 0.8648644233597690727897, 0.7415311855993944398639, 0.5860872354676911302941, 0.4058451513773971669066, 0.2077849550078984676007, 0.0};
static const double wgk_15[] = {0.02293532201052922496373, 0.0630920926299785532907, 0.1047900103222501838399, 0.1406532597155259187452, 0.1690047266392679028266, 0.1903505780647854099133, 0.2044329400752988924142, 0.209482141084727828013};
static const double wg_15[] = {0.1294849661688696932706, 0.2797053914892766679015, 0.3818300505051189449504, 0.4179591836734693877551};
static const double xgk_21[] = {0.9956571630258080807355, 0.973906528517171720078, 0.9301574913557082260012, 0.8650633666889845107321, 0.7808177265864168970637, 0.6794095682990244062343, 0.562757134668604683339, 0.4333953941292471907993, 0.2943928627014601981311, 0.1488743389816312108848, 0.0};
static const double wgk_21[] = {0.01169463886737187427806, 0.03255816230796472747882, 0.05475589657435199603138, 0.07503967481091995276704, 0.09312545458369760553507, 0.1093871588022976418992, 0.123491976262065851078, 0.1347092173114733259281, 0.1427759385770600807971, 0.1477391049013384913748, 0.1494455540029169056649};
static const double wg_21[] = {0.06667134430868813759357, 0.1494513491505805931458, 0.2190863625159820439955, 0.2692667193099963550912, 0.2955242247147528701739};
static const double xgk_31[] = {0.9980022986933970602852, 0.9879925180204854284896, 0.9677390756791391342573, 0.9372733924007059043078, 0.8972645323440819008825, 0.8482065834104272162006, 0.7904185014424659329676, 0.7244177313601700474162, 0.6509967412974169705337, 0.5709721726085388475372, 0.4850818636402396806937, 0.3941513470775633698972, 0.2991800071531688121668, 0.2011940939974345223006, 0.1011420669187174990271, 0.0};
static const double wgk_31[] = {0.005377479872923348987792, 0.01500794732931612253837, 0.02546084732671532018687, 0.03534636079137584622204, 0.04458975132476487660823, 0.05348152469092808726534, 0.06200956780067064028514, 0.06985412131872825870952, 0.07684968075772037889443, 0.08308050282313302103829, 0.08856444305621177064728, 0.09312659817082532122549, 0.09664272698362367850518, 0.09917359872179195933239, 0.1007698455238755950449, 0.1013300070147915490174};
static const double wg_31[] = {0.03075324199611726835463, 0.07036604748810812470927, 0.1071592204671719350119, 0.1395706779261543144478, 0.1662692058169939335532, 0.1861610000155622110268, 0.1984314853271115764561, 0.2025782419255612728806};
static const double xgk_41[] = {0.9988590315882776638383, 0.9931285991850949247861, 0.9815078774502502591933, 0.9639719272779137912677, 0.94082263383175475352, 0.9122344282513259058678, 0.8782768112522819760774, 0.8391169718222188233945, 0.7950414288375511983506, 0.7463319064601507926143, 0.6932376563347513848055, 0.6360536807265150254528, 0.5751404468197103153429, 0.5108670019508270980044, 0.4435931752387251032, 0.3737060887154195606725, 0.3016278681149130043206, 0.2277858511416450780805, 0.1526054652409226755052, 0.07652652113349733375464, 0.0};
static const double wgk_41[] = {0.003073583718520531501218, 0.008600269855642942198662, 0.01462616925697125298379, 0.02038837346126652359801, 0.02588213360495115883451, 0.03128730677703279895854, 0.03660016975820079803056, 0.04166887332797368626379, 0.04643482186749767472023, 0.05094457392372869193271, 0.05519510534828599474483, 0.05911140088063957237497, 0.06265323755478116802587, 0.06583459713361842211156, 0.06864867292852161934562, 0.07105442355344406830579, 0.07303069033278666749519, 0.07458287540049918898658, 0.07570449768455667465954, 0.0763778676720807367055, 0.07660071191799965644505};
static const double wg_41[] = {0.01761400713915211831186, 0.04060142980038694133104, 0.06267204833410906356951, 0.08327674157670474872476, 0.1019301198172404350368, 0.1181945319615184173124, 0.1316886384491766268985, 0.1420961093183820513293, 0.1491729864726037467878, 0.1527533871307258506981};
static const double xgk_51[] = {0.9992621049926098341935, 0.9955569697904980979088, 0.9880357945340772476373, 0.9766639214595175114983, 0.9616149864258425124181, 0.942974571228974339414, 0.9207471152817015617463, 0.894991997878275368851, 0.865847065293275595449, 0.833442628760834001421, 0.7978737979985000594104, 0.7592592630373576305773, 0.7177664068130843881867, 0.6735663684734683644851, 0.6268100990103174127881, 0.5776629302412229677237, 0.5263252843347191825996, 0.4730027314457149605222, 0.4178853821930377488518, 0.3611723058093878377358, 0.3030895389311078301675, 0.2438668837209884320452, 0.183718939421048892016, 0.1228646926107103963874, 0.06154448300568507888655, 0.0};
static const double wgk_51[] = {0.001987383892330315926508, 0.00556193213535671375804, 0.009473973386174151607208, 0.01323622919557167481366, 0.01684781770912829823152, 0.02043537114588283545657, 0.02400994560695321622009, 0.02747531758785173780295, 0.03079230016738748889111, 0.03400213027432933783675, 0.03711627148341554356033, 0.04008382550403238207484, 0.0428728450201700494769, 0.04550291304992178890987, 0.04798253713883671390639, 0.05027767908071567196333, 0.05236288580640747586437, 0.05425112988854549014454, 0.05595081122041231730824, 0.05743711636156783285358, 0.05868968002239420796197, 0.0597203403241740599791, 0.06053945537604586294536, 0.06112850971705304830586, 0.06147118987142531666154, 0.06158081806783293507876};
static const double wg_51[] = {0.0113937985010262879479, 0.0263549866150321372619, 0.04093915670130631265562, 0.05490469597583519192594, 0.06803833381235691720719, 0.08014070033500101801323, 0.0910282619829636498115, 0.1005359490670506442022, 0.1085196244742636531161, 0.1148582591457116483393, 0.1194557635357847722282, 0.122242442990310041689, 0.1231760537267154512039};
static const double xgk_61[] = {0.9994844100504906375713, 0.9968934840746495402716, 0.9916309968704045948586, 0.98366812327974720997, 0.9731163225011262683747, 0.9600218649683075122169, 0.9443744447485599794158, 0.9262000474292743258793, 0.9055733076999077985465, 0.8825605357920526815431, 0.8572052335460610989587, 0.8295657623827683974429, 0.7997278358218390830137, 0.767777432104826194918, 0.7337900624532268047262, 0.6978504947933157969323, 0.6600610641266269613701, 0.6205261829892428611405, 0.579345235826361691756, 0.5366241481420198992642, 0.4924804678617785749937, 0.4470337695380891767806, 0.4004012548303943925355, 0.352704725530878113471, 0.3040732022736250773727, 0.2546369261678898464398, 0.204525116682309891439, 0.1538699136085835469638, 0.1028069379667370301471, 0.05147184255531769583303, 0.0};
static const double wgk_61[] = {0.001389013698677007624552, 0.003890461127099884051267, 0.00663070391593129217332, 0.009273279659517763428441, 0.01182301525349634174223, 0.01436972950704580481245, 0.01692088918905327262757, 0.01941414119394238117341, 0.02182803582160919229717, 0.02419116207808060136569, 0.0265099548823331016106, 0.02875404876504129284398, 0.03090725756238776247288, 0.03298144705748372603181, 0.0349793380280600241375, 0.03688236465182122922391, 0.03867894562472759295035, 0.040374538951535959112, 0.04196981021516424614715, 0.04345253970135606931683, 0.04481480013316266319236, 0.04605923827100698811627, 0.04718554656929915394526, 0.04818586175708712914078, 0.04905543455502977888753, 0.04979568342707420635781, 0.05040592140278234684089, 0.0508817958987496064923, 0.05122154784925877217066, 0.05142612853745902593386, 0.05149472942945156755834};
static const double wg_61[] = {0.007968192496166605615466, 0.0184664683110909591423, 0.02878470788332336934972, 0.0387991925696270495968, 0.04840267283059405290294, 0.05749315621761906648172, 0.06597422988218049512813, 0.07375597473770520626824, 0.08075589522942021535469, 0.08689978720108297980239, 0.09212252223778612871763, 0.09636873717464425963947, 0.09959342058679526706278, 0.1017623897484055045964, 0.1028526528935588403413};
