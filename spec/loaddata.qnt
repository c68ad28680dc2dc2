// Frozen default 24-hour load shapes by building type (fraction of daily use per hour, x 10^12).
module loaddata {
  // multi_family
  pure val PEAK0: List[int] = [15197568000, 6079027000, 3039514000, 3039514000, 3039514000, 9118541000, 75987842000, 151975684000, 100303951000, 82066869000, 21276596000, 24316109000, 21276596000, 24316109000, 12158055000, 6079027000, 9118541000, 36474164000, 54711246000, 72948328000, 88145897000, 91185410000, 63829787000, 24316109000]
  // apartment
  pure val PEAK1: List[int] = [46728972000, 44392523000, 37383178000, 32710280000, 32710280000, 32710280000, 32710280000, 37383178000, 49065421000, 116822430000, 46728972000, 35046729000, 35046729000, 39719626000, 25700935000, 23364486000, 28037383000, 23364486000, 18691589000, 42056075000, 46728972000, 72429907000, 56074766000, 44392523000]
  // motel
  pure val PEAK2: List[int] = [15957447000, 0, 31914894000, 5319149000, 0, 0, 58510638000, 292553191000, 127659574000, 31914894000, 47872340000, 37234043000, 21276596000, 26595745000, 15957447000, 31914894000, 26595745000, 10638298000, 21276596000, 26595745000, 106382979000, 21276596000, 21276596000, 21276596000]
  // office_building
  pure val PEAK3: List[int] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 54054054000, 81081081000, 54054054000, 171171171000, 108108108000, 81081081000, 99099099000, 90090090000, 99099099000, 45045045000, 45045045000, 63063063000, 9009009000, 0, 0]
  // mens_dorm
  pure val PEAK4: List[int] = [100529101000, 66137566000, 79365079000, 26455026000, 0, 0, 5291005000, 26455026000, 63492063000, 39682540000, 10582011000, 21164021000, 26455026000, 26455026000, 5291005000, 15873016000, 37037037000, 42328042000, 89947090000, 10582011000, 15873016000, 10582011000, 74074074000, 206349206000]
  // womens_dorm
  pure val PEAK5: List[int] = [304878049000, 121951220000, 36585366000, 0, 0, 0, 0, 0, 36585366000, 24390244000, 6097561000, 6097561000, 6097561000, 12195122000, 18292683000, 30487805000, 24390244000, 18292683000, 73170732000, 60975610000, 103658537000, 12195122000, 30487805000, 73170732000]
  // nursing_home
  pure val PEAK6: List[int] = [0, 4975124000, 4975124000, 4975124000, 4975124000, 4975124000, 14925373000, 64676617000, 69651741000, 59701493000, 99502488000, 49751244000, 89552239000, 124378109000, 218905473000, 19900498000, 24875622000, 54726368000, 34825871000, 14925373000, 14925373000, 9950249000, 4975124000, 4975124000]
  // food_service_a
  pure val PEAK7: List[int] = [0, 0, 0, 0, 0, 0, 0, 0, 11783901000, 34445250000, 40790428000, 45322698000, 49854967000, 57106599000, 110587382000, 49854967000, 33720087000, 25380711000, 81580856000, 126903553000, 135968093000, 78861494000, 72516316000, 45322698000]
  // food_service_b
  pure val PEAK8: List[int] = [47709924000, 98600509000, 111323155000, 95419847000, 34987277000, 34987277000, 7951654000, 3180662000, 9541985000, 7951654000, 20674300000, 19083969000, 19720102000, 39758270000, 44529262000, 34987277000, 20674300000, 39758270000, 39758270000, 59160305000, 49300254000, 50890585000, 59160305000, 50890585000]
  // elementary_school
  pure val PEAK9: List[int] = [0, 0, 0, 0, 0, 0, 0, 0, 18501388000, 83256244000, 37927845000, 37002775000, 555041628000, 166512488000, 92506938000, 9250694000, 0, 0, 0, 0, 0, 0, 0, 0]
  // junior_high
  pure val PEAK10: List[int] = [3058104000, 6116208000, 6116208000, 6116208000, 6116208000, 6116208000, 6116208000, 6116208000, 6116208000, 45871560000, 55045872000, 116207951000, 61162080000, 107033639000, 116207951000, 76452599000, 15290520000, 30581040000, 305810398000, 6116208000, 3058104000, 3058104000, 3058104000, 3058104000]
  // senior_high
  pure val PEAK11: List[int] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 39735099000, 26490066000, 182119205000, 317880795000, 62913907000, 102649007000, 39735099000, 43046358000, 119205298000, 33112583000, 13245033000, 13245033000, 0, 0, 6622517000]
  pure val PEAK: List[List[int]] = [PEAK0, PEAK1, PEAK2, PEAK3, PEAK4, PEAK5, PEAK6, PEAK7, PEAK8, PEAK9, PEAK10, PEAK11]
  // multi_family
  pure val AVG0: List[int] = [20871994000, 9681490000, 7585863000, 4859654000, 6582104000, 20169294000, 56603955000, 101297028000, 95035550000, 73888759000, 47800182000, 38402702000, 34254015000, 29735784000, 28626695000, 29293350000, 29413842000, 36306789000, 50034610000, 56166098000, 63344828000, 65482907000, 57613722000, 36948785000]
  // apartment
  pure val AVG1: List[int] = [40293040000, 34798535000, 29304029000, 27472527000, 21978022000, 21978022000, 21978022000, 21978022000, 23809524000, 36630037000, 60439560000, 67765568000, 71428571000, 62271062000, 75091575000, 43956044000, 45787546000, 36630037000, 45787546000, 42124542000, 42124542000, 42124542000, 42124542000, 42124542000]
  // motel
  pure val AVG2: List[int] = [4672897000, 9345794000, 18691589000, 4672897000, 4672897000, 4672897000, 28037383000, 149532710000, 149532710000, 42056075000, 60747664000, 18691589000, 28037383000, 112149533000, 42056075000, 18691589000, 9345794000, 14018692000, 28037383000, 102803738000, 28037383000, 46728972000, 46728972000, 28037383000]
  // office_building
  pure val AVG3: List[int] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 80357143000, 80357143000, 8928571000, 416666667000, 104166667000, 53571429000, 53571429000, 56547619000, 8928571000, 23809524000, 53571429000, 59523810000, 0, 0, 0]
  // mens_dorm
  pure val AVG4: List[int] = [72033898000, 38135593000, 16949153000, 21186441000, 8474576000, 8474576000, 0, 16949153000, 38135593000, 84745763000, 67796610000, 50847458000, 33898305000, 33898305000, 59322034000, 50847458000, 63559322000, 50847458000, 80508475000, 50847458000, 42372881000, 25423729000, 42372881000, 42372881000]
  // womens_dorm
  pure val AVG5: List[int] = [204081633000, 86734694000, 45918367000, 5102041000, 0, 0, 0, 0, 30612245000, 30612245000, 15306122000, 25510204000, 25510204000, 10204082000, 10204082000, 5102041000, 10204082000, 20408163000, 20408163000, 35714286000, 71428571000, 127551020000, 71428571000, 147959184000]
  // nursing_home
  pure val AVG6: List[int] = [4273504000, 4273504000, 4273504000, 0, 4273504000, 4273504000, 8547009000, 34188034000, 68376068000, 128205128000, 145299145000, 51282051000, 81196581000, 111111111000, 170940171000, 25641026000, 12820513000, 25641026000, 42735043000, 25641026000, 21367521000, 4273504000, 12820513000, 8547009000]
  // food_service_a
  pure val AVG7: List[int] = [0, 0, 0, 0, 0, 0, 0, 0, 20876827000, 41753653000, 52192067000, 52192067000, 57411273000, 65762004000, 128392484000, 41753653000, 36534447000, 28183716000, 93945720000, 156576200000, 90814196000, 83507307000, 43841336000, 6263048000]
  // food_service_b
  pure val AVG8: List[int] = [54347826000, 35714286000, 97826087000, 52795031000, 51242236000, 51242236000, 20186335000, 62111801000, 0, 34161491000, 34161491000, 31055901000, 21739130000, 46583851000, 52795031000, 46583851000, 27950311000, 23291925000, 38819876000, 46583851000, 59006211000, 40372671000, 37267081000, 34161491000]
  // elementary_school
  pure val AVG9: List[int] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 14925373000, 29850746000, 298507463000, 395522388000, 156716418000, 104477612000, 0, 0, 0, 0, 0, 0, 0, 0, 0]
  // junior_high
  pure val AVG10: List[int] = [0, 5333333000, 5333333000, 5333333000, 5333333000, 5333333000, 5333333000, 5333333000, 5333333000, 32000000000, 58666667000, 240000000000, 120000000000, 112000000000, 58666667000, 146666667000, 66666667000, 5333333000, 106666667000, 2666667000, 0, 2666667000, 2666667000, 2666667000]
  // senior_high
  pure val AVG11: List[int] = [0, 6134969000, 6134969000, 3067485000, 0, 0, 0, 0, 0, 61349693000, 30674847000, 36809816000, 58282209000, 122699387000, 107361963000, 61349693000, 30674847000, 217791411000, 101226994000, 76687117000, 24539877000, 30674847000, 18404908000, 6134969000]
  pure val AVG: List[List[int]] = [AVG0, AVG1, AVG2, AVG3, AVG4, AVG5, AVG6, AVG7, AVG8, AVG9, AVG10, AVG11]
  pure val NAMES: List[str] = ["multi_family", "apartment", "motel", "office_building", "mens_dorm", "womens_dorm", "nursing_home", "food_service_a", "food_service_b", "elementary_school", "junior_high", "senior_high"]
}
