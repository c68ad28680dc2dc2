// Share of the design demand that covers p percent of days (p = 25..100): the p-quantile of a
// normal distribution with mean 0.7052988591269841 and deviation 0.08236427664525116, at most 1.
module lsdata {
  pure val FRACT_A = [649744998747, 652310180178, 654824960403, 657293539981, 659719726994, 662106990225, 664458503943, 666777185850, 669065729449, 671326631827, 673562217634, 675774659913, 677965998295, 680138154986, 682292948901, 684432108237, 686557281721, 688670048758, 690771928625, 692864388896, 694948853190, 697026708386, 699099311381, 701167995503, 703234076631, 705298859126, 707363641621, 709429722750, 711498406872, 713571009867, 715648865062, 717733329357, 719825789628, 721927669495, 724040436532, 726165610016, 728304769352, 730459563267, 732631719958, 734823058340]
  pure val FRACT_B = [737035500619, 739271086426, 741531988804, 743820532403, 746139214310, 748490728028, 750877991259, 753304178272, 755772757850, 758287538075, 760852719506, 763472958807, 766153445411, 768899994644, 771719161809, 774618383239, 777606152438, 780692242453, 783887990002, 787206663331, 790663945543, 794278580179, 798073249689, 802075796323, 806320960518, 810852926806, 815729177635, 821026561826, 826851319642, 833356661593, 840776038298, 849492851018, 860209064181, 874454402562, 896906818997, 1000000000000]
  pure val FRACT = FRACT_A.concat(FRACT_B)
  pure def fractOf(pct: int): int = FRACT[pct - 25]
}
