// Frozen California daily use per unit by bedroom count, 365 days (gallons x 10^12).
module cadata {
  pure val B0_0: List[int] = [22964800000000, 16203200000000, 24841600000000, 21693700000000, 23777500000000, 28498500000000, 18435400000000, 25945800000000, 30643600000000, 26098400000000, 32329800000000, 27522200000000, 24193800000000, 21365600000000, 18943600000000, 30280200000000, 27838400000000, 19080300000000, 24934700000000, 20326600000000, 25776400000000, 19522500000000, 19974200000000, 24107400000000, 34592100000000, 20817600000000, 22377300000000, 23785400000000, 22983100000000, 18822200000000, 18819100000000, 26851200000000, 18473500000000, 27717800000000, 25635900000000, 23996700000000, 17311200000000, 26734400000000, 27430400000000, 26022700000000, 27841000000000, 22992700000000, 18744400000000, 22370700000000, 29082900000000, 23917200000000, 16716900000000, 19448400000000, 24065500000000, 18625900000000, 24435900000000, 21974700000000, 38088300000000, 24112900000000, 20802600000000, 21101900000000, 21546100000000, 19348500000000, 17581800000000, 20118000000000, 22728200000000, 20391900000000, 23863700000000, 16595000000000, 23611600000000, 16610800000000, 15566700000000, 25501300000000, 25338200000000, 21930100000000, 22690500000000, 25910400000000, 23623800000000]
  pure val B0_1: List[int] = [27064200000000, 22180300000000, 26473000000000, 15963000000000, 13051700000000, 19229400000000, 22067000000000, 25425000000000, 28428900000000, 25078000000000, 26291800000000, 22464400000000, 22915600000000, 34258700000000, 19091400000000, 21776000000000, 25413700000000, 24547000000000, 20045900000000, 27541400000000, 22056800000000, 25119300000000, 28293000000000, 19793400000000, 28594300000000, 28524300000000, 20762900000000, 36530600000000, 24329300000000, 16235000000000, 31409600000000, 22892400000000, 21408100000000, 20399200000000, 31282200000000, 27603200000000, 17558300000000, 30412700000000, 21966000000000, 18750400000000, 29905600000000, 32549700000000, 26226400000000, 26806200000000, 24845200000000, 30630100000000, 13738200000000, 28896600000000, 25920800000000, 6630500000000, 24604400000000, 26024200000000, 22729700000000, 20213200000000, 10777800000000, 30530400000000, 27639300000000, 24186500000000, 32812400000000, 30549500000000, 20481300000000, 18640900000000, 23446300000000, 22240600000000, 25222900000000, 28796400000000, 20236200000000, 18838200000000, 16474100000000, 20790300000000, 22717600000000, 13867800000000, 25125100000000]
  pure val B0_2: List[int] = [26194800000000, 18347400000000, 22444900000000, 21157600000000, 22995900000000, 25905900000000, 18484700000000, 14194700000000, 21276800000000, 19226500000000, 37094000000000, 26664700000000, 28660700000000, 20983800000000, 14647200000000, 30354400000000, 22983500000000, 26368100000000, 19082200000000, 19400300000000, 20070400000000, 30253600000000, 20740100000000, 18160000000000, 16820200000000, 23114500000000, 19888500000000, 23990700000000, 19410200000000, 14550800000000, 20065700000000, 24760100000000, 26235100000000, 18241300000000, 23078900000000, 20267700000000, 36299400000000, 19608900000000, 26101000000000, 35767900000000, 22501700000000, 29638700000000, 18596600000000, 28254000000000, 23400900000000, 15449900000000, 18566500000000, 23016100000000, 19703100000000, 24341800000000, 25182800000000, 21516200000000, 26347700000000, 24487300000000, 23415000000000, 14977200000000, 25118900000000, 30709900000000, 21304600000000, 25349900000000, 16849700000000, 19787800000000, 25248600000000, 24772500000000, 13123400000000, 16710900000000, 39571500000000, 24272100000000, 22040800000000, 22719000000000, 22976500000000, 20830800000000, 15755200000000]
  pure val B0_3: List[int] = [33075800000000, 23172800000000, 22178600000000, 21487400000000, 19004700000000, 21696800000000, 18884200000000, 40274000000000, 23699000000000, 25345900000000, 21651200000000, 23072700000000, 26456300000000, 19370100000000, 24596400000000, 34121500000000, 23253000000000, 12130500000000, 16095000000000, 29662900000000, 24516000000000, 28197200000000, 33892400000000, 22004100000000, 24404700000000, 22875700000000, 17527100000000, 23445300000000, 16254700000000, 26237000000000, 27372300000000, 16775500000000, 26627000000000, 20589200000000, 28005300000000, 31113400000000, 21910100000000, 16231000000000, 19601300000000, 18605300000000, 21326400000000, 16995600000000, 22925600000000, 16010700000000, 26656500000000, 21744700000000, 24093700000000, 28029600000000, 25197800000000, 34520100000000, 24361200000000, 23119800000000, 17966000000000, 20378500000000, 22176500000000, 23736100000000, 33348500000000, 17770500000000, 24462000000000, 20071000000000, 15938500000000, 21814200000000, 23796500000000, 25899500000000, 21247500000000, 24105100000000, 23682500000000, 19783400000000, 21655600000000, 28728600000000, 19115500000000, 21613500000000, 18038700000000]
  pure val B0_4: List[int] = [21327700000000, 32685700000000, 18790600000000, 21218100000000, 19613600000000, 16949200000000, 19978900000000, 24874500000000, 28018800000000, 27045500000000, 26673900000000, 19401500000000, 26875000000000, 33643300000000, 24255100000000, 31017500000000, 14711400000000, 25001000000000, 32217400000000, 32408800000000, 20342500000000, 21854400000000, 27801400000000, 17092600000000, 25852400000000, 19426500000000, 27911300000000, 19503200000000, 30074100000000, 20421100000000, 23288400000000, 18452000000000, 29056500000000, 32832400000000, 18264800000000, 21401000000000, 21199900000000, 27492100000000, 34165000000000, 27496800000000, 20091000000000, 31178400000000, 12894100000000, 26729700000000, 25091200000000, 19989100000000, 20429300000000, 33476400000000, 25111200000000, 27356600000000, 23758100000000, 24894300000000, 25633000000000, 25301100000000, 25921900000000, 17111700000000, 23505000000000, 17451300000000, 29781800000000, 22588900000000, 23450300000000, 24212900000000, 21523000000000, 16840600000000, 25175600000000, 27737300000000, 28307700000000, 23283800000000, 17509600000000, 31673500000000, 30709200000000, 20892700000000, 24172400000000]
  pure val B0: List[List[int]] = [B0_0, B0_1, B0_2, B0_3, B0_4]
  pure val B1_0: List[int] = [29271900000000, 19139000000000, 24061800000000, 25674000000000, 19559800000000, 30540800000000, 19076800000000, 20114200000000, 17787000000000, 32139600000000, 28207500000000, 21228800000000, 28982300000000, 22643200000000, 25716400000000, 14773600000000, 35126400000000, 16622800000000, 23093500000000, 20192300000000, 27883100000000, 20389800000000, 33527000000000, 12573700000000, 17803300000000, 23695400000000, 17518000000000, 20647800000000, 17661900000000, 18818600000000, 32687600000000, 29130000000000, 25263900000000, 20311300000000, 14607200000000, 16585400000000, 26103800000000, 20696000000000, 21051400000000, 17320300000000, 19617000000000, 25277800000000, 17715800000000, 19143700000000, 17300500000000, 18744100000000, 10728800000000, 23719200000000, 11789800000000, 23133100000000, 22694900000000, 16375800000000, 22499000000000, 12423000000000, 25861000000000, 23919100000000, 19447300000000, 16066200000000, 13548100000000, 16738500000000, 24773300000000, 20854600000000, 14386800000000, 24754700000000, 27540800000000, 29019200000000, 23297600000000, 19563700000000, 21755800000000, 22294300000000, 25663000000000, 21412400000000, 18512100000000]
  pure val B1_1: List[int] = [16215600000000, 26059200000000, 18246400000000, 23188400000000, 13227900000000, 28051100000000, 19677800000000, 23706500000000, 20320500000000, 10792500000000, 23901200000000, 24559800000000, 15023200000000, 36588600000000, 22265700000000, 15529600000000, 16487700000000, 27822100000000, 25449500000000, 26428900000000, 33332200000000, 27361400000000, 15512200000000, 17014200000000, 25936700000000, 14931500000000, 23658500000000, 31309400000000, 33132800000000, 17756900000000, 22628600000000, 22695200000000, 24326800000000, 28926000000000, 26788100000000, 12812300000000, 19339600000000, 17417800000000, 23734500000000, 21792900000000, 29540300000000, 25610600000000, 23322400000000, 18865700000000, 29134200000000, 22367900000000, 17094200000000, 24842300000000, 26800500000000, 15106500000000, 16285400000000, 20175800000000, 19000600000000, 19698300000000, 16054700000000, 26974600000000, 13351800000000, 18375200000000, 17075000000000, 24531200000000, 18975700000000, 26096700000000, 26011300000000, 24523500000000, 26380000000000, 18379500000000, 17557500000000, 18208900000000, 30996100000000, 21522600000000, 23103700000000, 31108100000000, 21154900000000]
  pure val B1_2: List[int] = [23139400000000, 21578900000000, 19026700000000, 24706400000000, 21672800000000, 17101500000000, 22389000000000, 21200500000000, 17135000000000, 17662100000000, 22793400000000, 20816800000000, 17096400000000, 23314300000000, 28176100000000, 15585800000000, 18747300000000, 21336900000000, 25473000000000, 22242300000000, 12761800000000, 19016600000000, 17339800000000, 25015900000000, 16962600000000, 15919500000000, 16187500000000, 16206100000000, 25907600000000, 16602000000000, 20680700000000, 25162700000000, 30764800000000, 17267100000000, 26536000000000, 21295700000000, 30241100000000, 15491800000000, 29350100000000, 22764200000000, 13365800000000, 17132800000000, 26755500000000, 16188700000000, 17332700000000, 24141900000000, 20270500000000, 20274300000000, 21262600000000, 17920300000000, 21632700000000, 20381400000000, 19973200000000, 22474800000000, 20028000000000, 21131200000000, 29222000000000, 16381500000000, 13429900000000, 22603800000000, 24347600000000, 24368400000000, 19603100000000, 17921000000000, 17488800000000, 15945400000000, 11410800000000, 17164200000000, 19964700000000, 20717000000000, 17026400000000, 22288900000000, 23289600000000]
  pure val B1_3: List[int] = [18654400000000, 15650100000000, 25170400000000, 21465900000000, 23656900000000, 18612800000000, 15026000000000, 27962600000000, 27295000000000, 18153100000000, 12166400000000, 18509100000000, 19672500000000, 20867100000000, 20896400000000, 24653700000000, 18565800000000, 16258200000000, 16264500000000, 21646700000000, 37808200000000, 23208500000000, 20535300000000, 18196200000000, 19112200000000, 18242100000000, 25461900000000, 21452600000000, 16030000000000, 21745400000000, 14807200000000, 17401400000000, 15055200000000, 18206400000000, 23418200000000, 33190700000000, 17114700000000, 24914000000000, 20857400000000, 20094300000000, 21842800000000, 29628800000000, 14334800000000, 19447800000000, 17125600000000, 14288500000000, 21210000000000, 24370200000000, 19275500000000, 22743700000000, 26257300000000, 22897800000000, 19893800000000, 22908900000000, 12994200000000, 14678100000000, 29235600000000, 20778600000000, 17669400000000, 12308200000000, 20227600000000, 17958200000000, 14608200000000, 18907500000000, 27133700000000, 24747000000000, 17567600000000, 20795000000000, 19106300000000, 21106000000000, 32103400000000, 26500700000000, 19600600000000]
  pure val B1_4: List[int] = [15857500000000, 17059200000000, 21092000000000, 19578900000000, 15138600000000, 18201300000000, 18597000000000, 22438100000000, 18918500000000, 19867100000000, 19479300000000, 18368600000000, 21347200000000, 11728200000000, 18178400000000, 14394700000000, 20690300000000, 22421800000000, 24745100000000, 20107400000000, 24391000000000, 17086500000000, 26872200000000, 16010600000000, 20242800000000, 21440700000000, 26994600000000, 11530200000000, 22268100000000, 27566000000000, 19477300000000, 17652500000000, 20162500000000, 23752800000000, 15427100000000, 26701900000000, 22088100000000, 32105200000000, 23312600000000, 24942800000000, 21637200000000, 18355500000000, 21651200000000, 20324400000000, 14104800000000, 23018100000000, 25824200000000, 21787600000000, 14796500000000, 26474600000000, 26904300000000, 25939500000000, 24496500000000, 21338200000000, 17527700000000, 23379700000000, 24531600000000, 14052400000000, 16701200000000, 18229700000000, 22360100000000, 22735200000000, 13499200000000, 20398000000000, 26239800000000, 19249900000000, 16384300000000, 15508800000000, 23252700000000, 25463700000000, 18883300000000, 22640500000000, 20391800000000]
  pure val B1: List[List[int]] = [B1_0, B1_1, B1_2, B1_3, B1_4]
  pure val B2_0: List[int] = [23224700000000, 14622600000000, 19889000000000, 29559600000000, 15173100000000, 22479400000000, 12267100000000, 14216000000000, 18605600000000, 22123400000000, 18911300000000, 24364200000000, 16401700000000, 21382600000000, 13931300000000, 20026900000000, 15146200000000, 24813400000000, 28223900000000, 17483300000000, 18474100000000, 20780600000000, 21849900000000, 21673900000000, 15817100000000, 15484100000000, 14784100000000, 16386900000000, 19407500000000, 15628700000000, 17744200000000, 30682500000000, 23446800000000, 11448100000000, 14104500000000, 14676300000000, 15386000000000, 21796800000000, 16559800000000, 16952200000000, 16242300000000, 16202300000000, 18966000000000, 19779500000000, 25666300000000, 19190400000000, 25327600000000, 16461000000000, 16114800000000, 23059900000000, 20820800000000, 18425800000000, 15270500000000, 13449000000000, 15029200000000, 24666400000000, 19715600000000, 14292900000000, 23104700000000, 16988600000000, 18754800000000, 25853200000000, 15289500000000, 13318000000000, 24534600000000, 18922400000000, 29037300000000, 9867400000000, 13029700000000, 20059900000000, 21829800000000, 17547000000000, 24699300000000]
  pure val B2_1: List[int] = [19143100000000, 18609900000000, 21861600000000, 19656500000000, 17128500000000, 22839800000000, 15108700000000, 27862100000000, 21680200000000, 21048200000000, 17949000000000, 16843500000000, 16676700000000, 17130600000000, 14541400000000, 15692900000000, 17746400000000, 19245400000000, 14327000000000, 15539300000000, 23358900000000, 22077800000000, 16418900000000, 21581000000000, 15976300000000, 16519900000000, 19867800000000, 16288000000000, 16733200000000, 12777300000000, 18838000000000, 16001200000000, 19705600000000, 11156300000000, 15209100000000, 20561400000000, 13654800000000, 15948900000000, 20457300000000, 19899900000000, 20086600000000, 19912000000000, 18468000000000, 16779800000000, 18225300000000, 19669700000000, 15597300000000, 15421400000000, 18284900000000, 24629400000000, 29208600000000, 20550900000000, 19468700000000, 16592800000000, 18017200000000, 17217000000000, 25591900000000, 15612700000000, 26985900000000, 12981600000000, 28422800000000, 14057400000000, 19075400000000, 17254400000000, 17211600000000, 13629100000000, 18833000000000, 15694100000000, 12332900000000, 26482000000000, 15814600000000, 19743300000000, 19911900000000]
  pure val B2_2: List[int] = [18696700000000, 18854000000000, 13654200000000, 13875900000000, 17421300000000, 20562600000000, 22918200000000, 17570900000000, 17359900000000, 20814300000000, 23315700000000, 23235500000000, 22344700000000, 20293900000000, 19623500000000, 19800800000000, 22616300000000, 14636900000000, 13744800000000, 24353500000000, 17105000000000, 12197800000000, 16767900000000, 25169600000000, 20944600000000, 16552000000000, 21644200000000, 20552600000000, 16262300000000, 21107300000000, 12495600000000, 13534700000000, 19254700000000, 15071700000000, 18284800000000, 15225500000000, 22773900000000, 17845200000000, 23441600000000, 16679700000000, 12884500000000, 15505000000000, 13892900000000, 16192900000000, 17414800000000, 19382300000000, 22111700000000, 18221300000000, 17826100000000, 16170400000000, 21805900000000, 17589400000000, 15966800000000, 22302000000000, 15211700000000, 14833100000000, 16980600000000, 18167700000000, 15919900000000, 17859700000000, 19206900000000, 18355400000000, 16984200000000, 12802900000000, 16978900000000, 16838700000000, 21870400000000, 20070100000000, 20128700000000, 15798800000000, 14518200000000, 20540900000000, 11121400000000]
  pure val B2_3: List[int] = [20210400000000, 19466200000000, 14742800000000, 18421400000000, 21817800000000, 17513000000000, 14272800000000, 23235100000000, 13885900000000, 18018500000000, 21411100000000, 17599800000000, 18684100000000, 13078400000000, 17515400000000, 20764800000000, 14446400000000, 13755000000000, 13926700000000, 16984200000000, 14981000000000, 23027700000000, 19104300000000, 15423300000000, 12470300000000, 18413600000000, 18251400000000, 15453100000000, 16142500000000, 16624200000000, 17951600000000, 16426600000000, 20948700000000, 15806400000000, 14887200000000, 24962600000000, 17784800000000, 11648800000000, 17725900000000, 13315000000000, 12148500000000, 16046100000000, 19759100000000, 20310700000000, 17274200000000, 28204300000000, 13191600000000, 16734900000000, 12443100000000, 18497900000000, 8943200000000, 21648900000000, 20321300000000, 9397700000000, 21112800000000, 15223600000000, 18093600000000, 18212100000000, 19060600000000, 19728800000000, 10815300000000, 19200300000000, 17787700000000, 24181000000000, 21656800000000, 16442200000000, 11295700000000, 17128600000000, 21138400000000, 19624700000000, 13426500000000, 24752200000000, 12029800000000]
  pure val B2_4: List[int] = [15661000000000, 15523200000000, 25820100000000, 18282900000000, 20412000000000, 20915300000000, 13357500000000, 19666100000000, 14943500000000, 25130900000000, 23969600000000, 22289500000000, 20593900000000, 22533300000000, 17840500000000, 18303100000000, 25596400000000, 16999300000000, 12846200000000, 16312800000000, 17920900000000, 15587900000000, 13664200000000, 15242700000000, 19929500000000, 19875300000000, 19247100000000, 15915600000000, 17931000000000, 17376200000000, 17201900000000, 14900500000000, 16574200000000, 17679500000000, 12548500000000, 13491000000000, 20404400000000, 23375200000000, 20741400000000, 17093400000000, 17559000000000, 21396900000000, 15844600000000, 16376300000000, 15039100000000, 17755200000000, 19307000000000, 12528700000000, 12961300000000, 19077700000000, 26275200000000, 18607600000000, 14027500000000, 16830800000000, 19230200000000, 19984600000000, 18850100000000, 20907800000000, 16467600000000, 13238700000000, 23169800000000, 11051400000000, 22226000000000, 18763400000000, 13401000000000, 18236000000000, 27132000000000, 14863100000000, 21276100000000, 21069700000000, 11850200000000, 17284700000000, 19965300000000]
  pure val B2: List[List[int]] = [B2_0, B2_1, B2_2, B2_3, B2_4]
  pure val B3_0: List[int] = [18302300000000, 12236200000000, 18820100000000, 21155100000000, 22115600000000, 14360700000000, 19752600000000, 14681400000000, 16889200000000, 14593600000000, 20354400000000, 18388600000000, 14412500000000, 14783600000000, 16636500000000, 11983000000000, 15639900000000, 18852900000000, 20489600000000, 14207200000000, 18061900000000, 17530900000000, 12966800000000, 16712500000000, 16903000000000, 18045300000000, 15047100000000, 15132300000000, 13511500000000, 19398800000000, 16666100000000, 16838900000000, 15430700000000, 21910700000000, 21398200000000, 18469200000000, 14618500000000, 12897400000000, 16551700000000, 22582100000000, 14736300000000, 17452800000000, 16290300000000, 13485200000000, 13342900000000, 28418700000000, 41061900000000, 12905200000000, 16503000000000, 17668000000000, 17736000000000, 18129500000000, 21187900000000, 16360900000000, 13038900000000, 14344900000000, 23440400000000, 18799200000000, 22433600000000, 19608100000000, 18327400000000, 12893200000000, 24788000000000, 24304000000000, 17598100000000, 15536800000000, 16388000000000, 18361200000000, 13663100000000, 14357900000000, 17056800000000, 15111300000000, 21477100000000]
  pure val B3_1: List[int] = [19661200000000, 17036100000000, 16985000000000, 15476700000000, 20481200000000, 17392000000000, 23369900000000, 28770300000000, 23411400000000, 17231700000000, 23761300000000, 16820800000000, 22201700000000, 12837900000000, 16746500000000, 19800100000000, 18946900000000, 11443400000000, 16766400000000, 17897700000000, 17318000000000, 22363100000000, 11305200000000, 13736000000000, 14366600000000, 18276100000000, 13298600000000, 18254300000000, 15116800000000, 17482300000000, 17593800000000, 11473100000000, 17106400000000, 12329500000000, 26040700000000, 15579500000000, 17232200000000, 14523700000000, 16788600000000, 18475700000000, 15402700000000, 15775500000000, 17526300000000, 15947900000000, 16898900000000, 18306800000000, 14865200000000, 23287500000000, 19482300000000, 19224400000000, 16010600000000, 19810800000000, 15094700000000, 21851300000000, 14131700000000, 22041700000000, 14321000000000, 14883100000000, 16611900000000, 12036300000000, 12682100000000, 14617900000000, 20483100000000, 16666000000000, 19237400000000, 16977400000000, 11658700000000, 20476100000000, 15620400000000, 17984600000000, 12242500000000, 31681100000000, 16656200000000]
  pure val B3_2: List[int] = [14950600000000, 19460600000000, 17360000000000, 19435700000000, 23280700000000, 14425600000000, 20087700000000, 19558500000000, 13870600000000, 13531700000000, 23149800000000, 11070000000000, 19410800000000, 19204900000000, 23149600000000, 20806800000000, 15727000000000, 15311100000000, 19312100000000, 16047800000000, 13724000000000, 16086000000000, 21952700000000, 19851000000000, 16589400000000, 15733000000000, 17368400000000, 25468800000000, 19014100000000, 12378300000000, 17067400000000, 15229800000000, 23339800000000, 17336400000000, 18896700000000, 16030500000000, 18985600000000, 15794900000000, 21799100000000, 15801700000000, 16478200000000, 15069800000000, 22985500000000, 10759900000000, 17159700000000, 14529700000000, 18141900000000, 16951900000000, 12129800000000, 17874900000000, 18782700000000, 17512100000000, 18995100000000, 19305000000000, 21117300000000, 16611400000000, 10879200000000, 14214000000000, 19841300000000, 22668300000000, 26298700000000, 22887900000000, 13969900000000, 13384300000000, 18498900000000, 17133300000000, 13749700000000, 16563100000000, 15452200000000, 19026300000000, 14885300000000, 13856300000000, 12829900000000]
  pure val B3_3: List[int] = [19700400000000, 16410300000000, 17169300000000, 14470700000000, 17322200000000, 16790900000000, 17253500000000, 22844500000000, 18509800000000, 19841700000000, 16685100000000, 11229700000000, 17785400000000, 17390300000000, 19560300000000, 17380000000000, 22658900000000, 18547500000000, 13392700000000, 14610400000000, 17127900000000, 14518600000000, 16181000000000, 10079700000000, 12162300000000, 18645300000000, 19485700000000, 16151000000000, 18236200000000, 18717800000000, 12155600000000, 14118100000000, 17811500000000, 21405100000000, 18439300000000, 18401400000000, 12552000000000, 14528800000000, 19029700000000, 17189400000000, 16633400000000, 18213200000000, 17999500000000, 20226300000000, 17735300000000, 14183900000000, 16710600000000, 13719800000000, 19610700000000, 17531500000000, 18753200000000, 14250700000000, 16839200000000, 17115600000000, 12819300000000, 11771700000000, 22076100000000, 13771600000000, 12575200000000, 15919000000000, 19694900000000, 14047900000000, 12387400000000, 16640800000000, 13578400000000, 11064400000000, 17667900000000, 22913100000000, 12379000000000, 22739800000000, 19602000000000, 22336500000000, 15035700000000]
  pure val B3_4: List[int] = [17369200000000, 12223000000000, 13096300000000, 12518300000000, 22205000000000, 14435400000000, 16235700000000, 14072300000000, 19490600000000, 16319700000000, 14873100000000, 18528400000000, 19928700000000, 19729800000000, 11158500000000, 19918700000000, 17645600000000, 14654200000000, 15994500000000, 14600000000000, 20601400000000, 16864600000000, 14532300000000, 19768500000000, 16995500000000, 14168300000000, 21672000000000, 15082900000000, 17592600000000, 16527500000000, 11305300000000, 19053400000000, 19705000000000, 18673900000000, 19720300000000, 18697400000000, 15192200000000, 27698600000000, 20079700000000, 16342700000000, 14844300000000, 12899700000000, 14014400000000, 16309800000000, 22533000000000, 18430000000000, 21556900000000, 15147900000000, 17085000000000, 21744000000000, 23016100000000, 19457500000000, 11247100000000, 18715100000000, 19731200000000, 16555800000000, 15125000000000, 13161900000000, 24724200000000, 12857200000000, 29183800000000, 17646900000000, 13517200000000, 14935700000000, 17637500000000, 16502700000000, 20340800000000, 20907700000000, 20918800000000, 21015500000000, 19268600000000, 13719500000000, 13404700000000]
  pure val B3: List[List[int]] = [B3_0, B3_1, B3_2, B3_3, B3_4]
  pure val B4_0: List[int] = [21624100000000, 14643200000000, 17157100000000, 20170200000000, 16565000000000, 12017800000000, 14674500000000, 14787600000000, 20126600000000, 25843300000000, 17335600000000, 14959000000000, 20435400000000, 15429600000000, 14782300000000, 12653200000000, 18112900000000, 17600900000000, 15633900000000, 13109800000000, 17476200000000, 15100600000000, 11862800000000, 13052500000000, 13304700000000, 19639900000000, 22280300000000, 16719700000000, 20538400000000, 16357700000000, 18248000000000, 12772000000000, 20689700000000, 15960100000000, 14012200000000, 17735900000000, 16274400000000, 15536400000000, 17708400000000, 18108500000000, 14276200000000, 18083800000000, 15584400000000, 17843200000000, 15543000000000, 18238700000000, 18422100000000, 19570800000000, 12646400000000, 14613300000000, 11083200000000, 13667500000000, 17265600000000, 19535500000000, 18832400000000, 14907100000000, 14389000000000, 17832600000000, 15586900000000, 19111600000000, 18559700000000, 11423700000000, 16530400000000, 14829500000000, 16660600000000, 16410300000000, 19023200000000, 15028000000000, 11487300000000, 15573900000000, 13748800000000, 19301100000000, 20249700000000]
  pure val B4_1: List[int] = [15514800000000, 15189900000000, 14333900000000, 18787700000000, 20875700000000, 17133700000000, 20048700000000, 18139500000000, 15327000000000, 15553300000000, 16508000000000, 19343400000000, 12539800000000, 15884700000000, 14596700000000, 17222800000000, 26072500000000, 15366000000000, 22315000000000, 18081400000000, 21283400000000, 18295200000000, 13651400000000, 14228000000000, 15904500000000, 21321100000000, 17758700000000, 19339700000000, 16984800000000, 10822100000000, 19463100000000, 10567300000000, 16771300000000, 12944300000000, 18517100000000, 18008900000000, 12005600000000, 14142000000000, 18982100000000, 18205500000000, 13444000000000, 14378200000000, 13717300000000, 13663500000000, 14672300000000, 16514800000000, 14357000000000, 17593800000000, 16866300000000, 14124600000000, 17014400000000, 17440600000000, 23635700000000, 15973200000000, 17362100000000, 16630400000000, 14389500000000, 18178000000000, 19698900000000, 18750900000000, 18888400000000, 16048000000000, 19980700000000, 15792800000000, 11059400000000, 10378200000000, 20794000000000, 15120000000000, 12619200000000, 16003500000000, 20446100000000, 18798500000000, 15941400000000]
  pure val B4_2: List[int] = [15592100000000, 17046700000000, 15979000000000, 16890700000000, 16375400000000, 15378300000000, 22328000000000, 13519600000000, 16848600000000, 15105600000000, 15795300000000, 19439400000000, 18122900000000, 10592100000000, 14561500000000, 16060900000000, 14146700000000, 14808900000000, 14100100000000, 15891600000000, 18099900000000, 14056300000000, 13893300000000, 14121900000000, 18657100000000, 19513900000000, 13377500000000, 13813300000000, 19072800000000, 18997100000000, 16434600000000, 19605700000000, 17477500000000, 10813000000000, 14153600000000, 16894200000000, 13536600000000, 13861600000000, 13678400000000, 22950500000000, 18070600000000, 18339300000000, 12843000000000, 18848600000000, 15594000000000, 15628200000000, 15739400000000, 19324200000000, 11955500000000, 13999600000000, 16196500000000, 14876000000000, 20463200000000, 26155600000000, 15883000000000, 14369000000000, 16005000000000, 14872700000000, 13728400000000, 15337500000000, 18323600000000, 19258000000000, 18760500000000, 14601400000000, 22249600000000, 12497200000000, 14668800000000, 16915100000000, 17545100000000, 12202900000000, 13692300000000, 13571500000000, 14957700000000]
  pure val B4_3: List[int] = [18494300000000, 16269000000000, 19920800000000, 22540500000000, 17069200000000, 12209000000000, 10453000000000, 16688700000000, 12943800000000, 16994300000000, 11603100000000, 16554500000000, 17041100000000, 16443400000000, 20758500000000, 18759200000000, 18455600000000, 10555500000000, 16726800000000, 11463800000000, 15020600000000, 12442900000000, 17038600000000, 16451200000000, 16115600000000, 15277100000000, 13284900000000, 15840200000000, 20400800000000, 16042000000000, 27859100000000, 14527300000000, 16041900000000, 15243000000000, 13542700000000, 13696100000000, 15931000000000, 14378200000000, 15764400000000, 12921300000000, 14592300000000, 16573100000000, 20582900000000, 12674900000000, 16413100000000, 16688300000000, 17242700000000, 12925400000000, 17695900000000, 23983500000000, 16457000000000, 15473900000000, 15742000000000, 16184700000000, 10131900000000, 14764100000000, 12111100000000, 15213700000000, 14390200000000, 12006100000000, 19002200000000, 16144900000000, 15244200000000, 12316000000000, 14612800000000, 16003900000000, 13726800000000, 10955300000000, 13035000000000, 16113700000000, 16177000000000, 18758900000000, 13374200000000]
  pure val B4_4: List[int] = [18090000000000, 19050900000000, 12411500000000, 14481700000000, 13672300000000, 18104700000000, 12646100000000, 14577200000000, 12841000000000, 12364200000000, 16405200000000, 15005300000000, 17605900000000, 13498100000000, 18462600000000, 17676100000000, 25757600000000, 16552000000000, 11957400000000, 15812100000000, 11482400000000, 14895600000000, 25292100000000, 19600100000000, 19990600000000, 19906200000000, 15463700000000, 14785600000000, 18134400000000, 22147400000000, 17456600000000, 16874800000000, 14387400000000, 15476400000000, 15735600000000, 15551700000000, 15128100000000, 32436200000000, 17544700000000, 12279100000000, 18978400000000, 12215600000000, 12293000000000, 12769500000000, 14807800000000, 21094300000000, 25041800000000, 18249100000000, 13904400000000, 15860600000000, 16826300000000, 16323300000000, 19705000000000, 17888600000000, 20857900000000, 19183500000000, 14368700000000, 22774800000000, 18944000000000, 15558200000000, 19646900000000, 19184300000000, 15808400000000, 23881600000000, 17639200000000, 13317700000000, 20647700000000, 22874800000000, 15133000000000, 15555000000000, 15454700000000, 15811900000000, 19462400000000]
  pure val B4: List[List[int]] = [B4_0, B4_1, B4_2, B4_3, B4_4]
  pure val B5_0: List[int] = [18147100000000, 12960900000000, 22078700000000, 19019700000000, 20884100000000, 14449500000000, 16122000000000, 15152400000000, 15613900000000, 25028600000000, 21857100000000, 17711200000000, 15043400000000, 15805100000000, 18877200000000, 21751300000000, 26276200000000, 19489900000000, 13869400000000, 19582800000000, 20688500000000, 20981400000000, 15736500000000, 18051300000000, 15221700000000, 16594700000000, 17507300000000, 17012800000000, 14111600000000, 19145900000000, 17645500000000, 22009900000000, 16669400000000, 20122900000000, 24857000000000, 14438800000000, 19585400000000, 13289400000000, 19424900000000, 13913300000000, 16528300000000, 16914000000000, 13378900000000, 17368900000000, 20194400000000, 17817000000000, 13819000000000, 16443200000000, 18539800000000, 21113100000000, 15994500000000, 16306400000000, 19074100000000, 21443600000000, 17280600000000, 16085100000000, 22073500000000, 16331200000000, 15037400000000, 21193500000000, 16573800000000, 21322500000000, 20375000000000, 11480500000000, 14560600000000, 12910200000000, 16601200000000, 17416600000000, 17751200000000, 19276800000000, 21607000000000, 15275100000000, 15877300000000]
  pure val B5_1: List[int] = [20425700000000, 19624900000000, 12032900000000, 16864900000000, 13507900000000, 14165000000000, 23271900000000, 16614700000000, 15152000000000, 20211100000000, 15945000000000, 22498200000000, 16911300000000, 16542900000000, 23274700000000, 19033000000000, 21804100000000, 16075500000000, 17285500000000, 12938400000000, 19170400000000, 19277000000000, 13991000000000, 21591600000000, 16322800000000, 18487900000000, 20724600000000, 17313200000000, 16460100000000, 17898300000000, 14600100000000, 13633400000000, 15614300000000, 19240700000000, 16420900000000, 20373500000000, 18247500000000, 10250300000000, 13778100000000, 17125500000000, 18467700000000, 16670500000000, 17117100000000, 18989300000000, 14255300000000, 13960200000000, 21554700000000, 15903400000000, 20118200000000, 15932500000000, 19090900000000, 13207200000000, 17354600000000, 15275200000000, 20694200000000, 15659500000000, 17535200000000, 20440600000000, 18454500000000, 16758300000000, 17134100000000, 21913800000000, 23427000000000, 13850700000000, 20091500000000, 20482200000000, 23211500000000, 16647700000000, 18154400000000, 24494100000000, 9428600000000, 22309100000000, 19849200000000]
  pure val B5_2: List[int] = [14080000000000, 15193600000000, 16188100000000, 21642900000000, 25642800000000, 14666000000000, 15066700000000, 17181600000000, 14032400000000, 14015500000000, 15316700000000, 21590600000000, 20686300000000, 17711900000000, 12804300000000, 20049900000000, 17696600000000, 20059300000000, 13382900000000, 15405500000000, 14744000000000, 15608100000000, 14625600000000, 19622700000000, 19423100000000, 18463600000000, 11189500000000, 20175600000000, 15408700000000, 23917100000000, 14967200000000, 15289200000000, 17220500000000, 13842500000000, 20379400000000, 16017900000000, 21195300000000, 14199100000000, 19092900000000, 17808600000000, 12840500000000, 18796600000000, 17871800000000, 18444100000000, 17796600000000, 16132200000000, 11072900000000, 13019600000000, 14915200000000, 11909000000000, 15006200000000, 15603500000000, 20033000000000, 14931800000000, 20123700000000, 12632400000000, 18717900000000, 18436700000000, 19994800000000, 21509900000000, 17283900000000, 16513200000000, 17106400000000, 14615200000000, 14795900000000, 18636500000000, 20857800000000, 20435900000000, 16147500000000, 16438900000000, 14572700000000, 20699600000000, 13180900000000]
  pure val B5_3: List[int] = [13801100000000, 18220200000000, 9420700000000, 13892000000000, 17984500000000, 16906700000000, 18232200000000, 14910800000000, 18486900000000, 24313500000000, 16481200000000, 18399700000000, 18524400000000, 13464300000000, 16727400000000, 13074200000000, 12234100000000, 14500300000000, 19723800000000, 15313200000000, 18752800000000, 13843200000000, 32403300000000, 16255500000000, 14223300000000, 16805300000000, 19262600000000, 18625300000000, 16666800000000, 17903000000000, 35654400000000, 18289500000000, 10666000000000, 15349200000000, 15172300000000, 17616000000000, 14461500000000, 14932200000000, 19150300000000, 16033400000000, 14022600000000, 15189000000000, 24227800000000, 17853100000000, 14355000000000, 18255600000000, 16820700000000, 14296000000000, 16129800000000, 11309000000000, 15690700000000, 16487700000000, 10980500000000, 18420000000000, 14817600000000, 15465500000000, 24628700000000, 23496900000000, 19410200000000, 14475400000000, 16625300000000, 16614700000000, 13384700000000, 20236500000000, 12837500000000, 13752700000000, 17219800000000, 19263600000000, 15514700000000, 16462000000000, 15978400000000, 15156200000000, 21750400000000]
  pure val B5_4: List[int] = [19952500000000, 13294800000000, 13492200000000, 11341600000000, 14740200000000, 17141900000000, 17933300000000, 18291400000000, 22422200000000, 15298400000000, 13403200000000, 23883200000000, 15486700000000, 18003400000000, 14240200000000, 19844300000000, 16184000000000, 13765000000000, 19027100000000, 23965600000000, 20396900000000, 14084500000000, 17205400000000, 15240400000000, 15711800000000, 20965400000000, 19359900000000, 17009600000000, 16945100000000, 23775500000000, 16789200000000, 15676600000000, 17900100000000, 13308600000000, 16212500000000, 16951200000000, 13390400000000, 24445200000000, 17392200000000, 15868200000000, 17287800000000, 18100800000000, 19605400000000, 20650500000000, 15291300000000, 16497200000000, 18497700000000, 16498000000000, 16193700000000, 13958000000000, 20227900000000, 19163000000000, 21538700000000, 21325500000000, 16851100000000, 15868400000000, 14916500000000, 22055400000000, 13965100000000, 20333000000000, 16573400000000, 18362000000000, 13737200000000, 19355900000000, 17887900000000, 22830700000000, 21696000000000, 12669400000000, 21356400000000, 15782400000000, 14651600000000, 20018400000000, 15236500000000]
  pure val B5: List[List[int]] = [B5_0, B5_1, B5_2, B5_3, B5_4]
  pure val BR: List[List[List[int]]] = [B0, B1, B2, B3, B4, B5]
}
