// Frozen climate lookup: zip codes (a sample covering all their zones) and weather stations with their zone,
// and the design (coldest) outdoor and inlet temperatures of the 96 zones (degF x 10^12).
module placedata {
  pure val ZIPS: List[str] = ["90001", "90004", "90009", "90024", "90047", "90070", "90096", "90233", "90274", "90312", "90509", "90638", "90713", "90803", "90848", "91023", "91043", "91124", "91210", "91321", "91352", "91384", "91413", "91526", "91701", "91710", "91744", "91770", "91803", "91902", "91905", "91933", "92004", "92039", "92074", "92108", "92132", "92162", "92191", "92233", "92262", "92305", "92332", "92365", "92399", "92503", "92545", "92585", "92619", "92659", "92698", "92805", "92841", "92878", "93015", "93065", "93130", "93150", "93201", "93225", "93254", "93282", "93383", "93426", "93451", "93516", "93546", "93602", "93620", "93626", "93651", "93706", "93737", "93780", "93901", "93924", "94012", "94040", "94088", "94119", "94142", "94167", "94237", "94269", "94298", "94502", "94503", "94526", "94550", "94574", "94601", "94626", "94803", "94922", "94929", "94960", "95007", "95037", "95067", "95120", "95148", "95196", "95227", "95255", "95317", "95343", "95369", "95402", "95428", "95456", "95486", "95534", "95563", "95602", "95611", "95635", "95662", "95685", "95720", "95812", "95835", "95910", "95936", "95960", "95984", "96021", "96050", "96076", "96106", "96129", "96160", "98366"]
  pure val ZIPS_ZONE: List[int] = [8, 9, 6, 9, 8, 9, 8, 6, 6, 8, 6, 9, 8, 6, 8, 16, 9, 9, 9, 9, 9, 9, 9, 9, 10, 10, 9, 9, 9, 7, 14, 7, 15, 7, 10, 7, 7, 7, 7, 15, 15, 16, 14, 14, 10, 10, 10, 10, 8, 6, 8, 8, 8, 10, 9, 9, 5, 6, 13, 16, 4, 13, 13, 4, 4, 14, 16, 16, 12, 13, 13, 13, 13, 13, 3, 3, 3, 4, 3, 3, 3, 3, 12, 12, 12, 3, 2, 12, 12, 2, 3, 3, 3, 1, 3, 2, 3, 4, 3, 4, 4, 4, 12, 12, 12, 12, 12, 2, 2, 1, 1, 1, 16, 11, 12, 12, 12, 12, 16, 12, 12, 16, 16, 16, 16, 11, 16, 16, 16, 16, 16, 21]
  pure val STATIONS: List[str] = ["ID - Boise Air Terminal", "ID - Burley Muni AP", "ID - Caldwell AWOS", "ID - Coeur dAlene AWOS", "ID - Hailey-Sun Valley AP", "ID - Idaho Falls-Fanning Field", "ID - Lewiston-Nez Perce County AP", "ID - Malad City AP", "ID - Mountain Home AFB", "ID - Pocatello Muni AP", "ID - Salmon-Lemhi AWOS", "ID - Soda Springs-Tigert AP", "ID - Twin Falls-Magic Valley Rgnl AP-Joslin Field", "MT - Billings-Logan Intl AP", "MT - Bozeman-Gallatin Field", "MT - Butte-Bert Mooney AP", "MT - Cut Bank Muni AP", "MT - Glasgow Intl AP", "MT - Glendive AWOS", "MT - Great Falls Intl AP", "MT - Havre City-County AP", "MT - Helena Rgnl AP", "MT - Kalispell-Glacier Park Intl AP", "MT - Lewistown Muni AP", "MT - Livingston-Mission Field", "MT - Miles City Muni AP", "MT - Missoula Intl AP", "MT - Sidney-Richland Muni AP", "MT - Wolf Point Intl AP", "OR - Astoria Rgnl AP", "OR - Aurora State AP", "OR - Baker Muni AP", "OR - Burns Muni AP", "OR - Corvallis Muni AP", "OR - Eugene-Mahlon Sweet AP", "OR - Klamath Falls Intl AP", "OR - La Grande Muni AP", "OR - Lakeview AWOS", "OR - Medford-Rogue Valley Intl AP", "OR - North Bend Muni AP", "OR - Pendleton-Eastern Oregon Rgnl AP", "OR - Portland Hillsboro AP", "OR - Portland Intl AP", "OR - Portland-Troutdale AP", "OR - Redmond-Roberts Field", "OR - Roseburg Rgnl AP", "OR - Salem-McNary Field", "OR - Sexton Summit", "WA - Bellingham Intl Ap", "WA - Bremerton National AP", "WA - Ephrata Muni AP", "WA - Fairchild AFB", "WA - Fort Lewis-Gray AAF", "WA - Hanford", "WA - Hoquiam AP", "WA - Kelso AP", "WA - Moses Lake-Grant County AP", "WA - Olympia AP", "WA - Pasco-Tri Cities AP", "WA - Port Angeles-William R Fairchild Intl AP", "WA - Pullman-Moscow Rgnl AP", "WA - Quillayute State AP", "WA - Renton Muni AP", "WA - Seattle-Boeing Field", "WA - Seattle-Tacoma Intl AP", "WA - Snohomish County AP", "WA - Spokane-Felts Field", "WA - Stampede Pass", "WA - Tacoma McChord AFB", "WA - Tacoma Narrows AP", "WA - The Dalles Muni AP", "WA - Toledo-Winlock-Ed Carlson Mem AP", "WA - Walla Walla City-County AP", "WA - Wenatchee-Pangborn Mem AP", "WA - Whidbey Island NAS", "WA - Yakima Air Terminal-McAllister Field", "Vancouver BC"]
  pure val STATIONS_ZONE: List[int] = [67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 41, 40, 42, 43, 44, 45, 46, 47, 96]
  pure val INLETS: List[int] = [47894000000000, 49316000000000, 52700000000000, 52394000000000, 52286000000000, 58496000000000, 58964000000000, 58154000000000, 55994000000000, 61646000000000, 49388000000000, 51116000000000, 51476000000000, 52178000000000, 63032000000000, 44510000000000, 33500000000000, 45100000000000, 27000000000000, 43600000000000, 44400000000000, 41000000000000, 34300000000000, 43600000000000, 40700000000000, 46400000000000, 46400000000000, 41800000000000, 44600000000000, 44400000000000, 43900000000000, 39300000000000, 45100000000000, 47700000000000, 47700000000000, 46300000000000, 45900000000000, 37900000000000, 32500000000000, 46800000000000, 43300000000000, 45900000000000, 42100000000000, 44200000000000, 40900000000000, 45600000000000, 39900000000000, 47100000000000, 47600000000000, 36700000000000, 36200000000000, 47900000000000, 45800000000000, 38100000000000, 41000000000000, 37200000000000, 45500000000000, 48800000000000, 42900000000000, 46300000000000, 47400000000000, 47700000000000, 39500000000000, 48900000000000, 46700000000000, 42800000000000, 41300000000000, 39500000000000, 40100000000000, 37300000000000, 34100000000000, 32700000000000, 42300000000000, 38100000000000, 39500000000000, 35500000000000, 34300000000000, 32600000000000, 39900000000000, 36800000000000, 31500000000000, 30300000000000, 33900000000000, 29500000000000, 29400000000000, 32600000000000, 32000000000000, 34300000000000, 34000000000000, 33900000000000, 36700000000000, 31900000000000, 35600000000000, 24800000000000, 28100000000000, 45200000000000]
  pure val OATS: List[int] = [26060000000000, 24080000000000, 32000000000000, 32000000000000, 28040000000000, 42080000000000, 41000000000000, 35060000000000, 33800000000000, 33980000000000, 28940000000000, 26960000000000, 26060000000000, 23000000000000, 37400000000000, 12920000000000, 1900000000000, 19400000000000, -29000000000000, 19400000000000, 19400000000000, -11000000000000, -2200000000000, 5000000000000, -15000000000000, 19900000000000, 20800000000000, 14000000000000, 16000000000000, 14000000000000, 21200000000000, 3200000000000, 24100000000000, 24800000000000, 19400000000000, 21900000000000, 28400000000000, 1900000000000, 12900000000000, 32000000000000, 10900000000000, 21700000000000, 11800000000000, 23000000000000, 12000000000000, 23000000000000, -2900000000000, 24100000000000, 26600000000000, -400000000000, 1900000000000, 24800000000000, 19900000000000, 8600000000000, 9000000000000, 5500000000000, 15100000000000, 27000000000000, 10000000000000, 24800000000000, 24100000000000, 26600000000000, -900000000000, 27900000000000, 12900000000000, 21900000000000, 3000000000000, 0, 3200000000000, -2900000000000, -5100000000000, -11200000000000, 12900000000000, -400000000000, -6000000000000, -13000000000000, -5800000000000, -28100000000000, 5000000000000, -9000000000000, -29000000000000, -17000000000000, -18900000000000, -27000000000000, -27000000000000, -29000000000000, -30100000000000, -11900000000000, -8000000000000, -18000000000000, -23100000000000, -20000000000000, 5000000000000, -35100000000000, -27400000000000, 19040000000000]
}
