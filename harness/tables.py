"""Published festival lists, transcribed: month-day -> names (with remarks)."""

FOTO = {'1-1': (('天腊，玉帝校世人神气禄命', '犯者削禄夺纪', False, ''), ('月朔', '犯者夺纪', True, '')),
 '1-3': (('万神都会', '犯者夺纪', False, ''), ('斗降', '犯者夺纪', True, '')),
 '1-5': (('五虚忌', '', False, ''),),
 '1-6': (('六耗忌', '', False, ''), ('雷斋日', '犯者减寿', True, '')),
 '1-7': (('上会日', '犯者损寿', False, ''),),
 '1-8': (('五殿阎罗天子诞', '犯者夺纪', False, ''), ('四天王巡行', '', True, '')),
 '1-9': (('玉皇上帝诞', '犯者夺纪', False, ''),),
 '1-13': (('杨公忌', '', False, ''),),
 '1-14': (('三元降', '犯者减寿', False, ''), ('四天王巡行', '', True, '')),
 '1-15': (('三元降', '犯者减寿', False, ''), ('上元神会', '犯者夺纪', False, ''), ('月望', '犯者夺纪', True, ''), ('四天王巡行', '', True, '')),
 '1-16': (('三元降', '犯者减寿', False, ''),),
 '1-19': (('长春真人诞', '', False, ''),),
 '1-23': (('三尸神奏事', '', False, ''), ('四天王巡行', '', True, '')),
 '1-25': (('月晦', '犯者减寿', True, ''), ('天地仓开日', '犯者损寿，子带疾', False, '')),
 '1-27': (('斗降', '犯者夺纪', True, ''),),
 '1-28': (('人神在阴', '犯者得病', True, '宜先一日即戒'),),
 '1-29': (('四天王巡行', '', True, ''),),
 '1-30': (('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')),
 '2-1': (('一殿秦广王诞', '犯者夺纪', False, ''), ('月朔', '犯者夺纪', True, '')),
 '2-2': (('万神都会', '犯者夺纪', False, ''), ('福德土地正神诞', '犯者得祸', False, '')),
 '2-3': (('文昌帝君诞', '犯者削禄夺纪', False, ''), ('斗降', '犯者夺纪', True, '')),
 '2-6': (('东华帝君诞', '', False, ''), ('雷斋日', '犯者减寿', True, '')),
 '2-8': (('释迦牟尼佛出家', '犯者夺纪', False, ''), ('三殿宋帝王诞', '犯者夺纪', False, ''), ('张大帝诞', '犯者夺纪', False, ''), ('四天王巡行', '', True, '')),
 '2-11': (('杨公忌', '', False, ''),),
 '2-14': (('四天王巡行', '', True, ''),),
 '2-15': (('释迦牟尼佛涅槃', '犯者削禄夺纪', False, ''), ('太上老君诞', '犯者削禄夺纪', False, ''), ('月望', '犯者削禄夺纪', True, ''), ('四天王巡行', '', True, '')),
 '2-17': (('东方杜将军诞', '', False, ''),),
 '2-18': (('四殿五官王诞', '犯者削禄夺纪', False, ''), ('至圣先师孔子讳辰', '犯者削禄夺纪', False, '')),
 '2-19': (('观音大士诞', '犯者夺纪', False, ''),),
 '2-21': (('普贤菩萨诞', '', False, ''),),
 '2-23': (('四天王巡行', '', True, ''),),
 '2-25': (('月晦', '犯者减寿', True, ''),),
 '2-27': (('斗降', '犯者夺纪', True, ''),),
 '2-28': (('人神在阴', '犯者得病', True, '宜先一日即戒'),),
 '2-29': (('四天王巡行', '', True, ''),),
 '2-30': (('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')),
 '3-1': (('二殿楚江王诞', '犯者夺纪', False, ''), ('月朔', '犯者夺纪', True, '')),
 '3-3': (('玄天上帝诞', '犯者夺纪', False, ''), ('斗降', '犯者夺纪', True, '')),
 '3-6': (('雷斋日', '犯者减寿', True, ''),),
 '3-8': (('六殿卞城王诞', '犯者夺纪', False, ''), ('四天王巡行', '', True, '')),
 '3-9': (('牛鬼神出', '犯者产恶胎', False, ''), ('杨公忌', '', False, '')),
 '3-12': (('中央五道诞', '', False, ''),),
 '3-14': (('四天王巡行', '', True, ''),),
 '3-15': (('昊天上帝诞', '犯者夺纪', False, ''), ('玄坛诞', '犯者夺纪', False, ''), ('月望', '犯者夺纪', True, ''), ('四天王巡行', '', True, '')),
 '3-16': (('准提菩萨诞', '犯者夺纪', False, ''),),
 '3-19': (('中岳大帝诞', '', False, ''), ('后土娘娘诞', '', False, ''), ('三茅降', '', False, '')),
 '3-20': (('天地仓开日', '犯者损寿', False, ''), ('子孙娘娘诞', '', False, '')),
 '3-23': (('四天王巡行', '', True, ''),),
 '3-25': (('月晦', '犯者减寿', True, ''),),
 '3-27': (('七殿泰山王诞', '', False, ''), ('斗降', '犯者夺纪', True, '')),
 '3-28': (('人神在阴', '犯者得病', True, '宜先一日即戒'), ('苍颉至圣先师诞', '犯者削禄夺纪', False, ''), ('东岳大帝诞', '', False, '')),
 '3-29': (('四天王巡行', '', True, ''),),
 '3-30': (('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')),
 '4-1': (('八殿都市王诞', '犯者夺纪', False, ''), ('月朔', '犯者夺纪', True, '')),
 '4-3': (('斗降', '犯者夺纪', True, ''),),
 '4-4': (('万神善会', '犯者失瘼夭胎', False, ''), ('文殊菩萨诞', '', False, '')),
 '4-6': (('雷斋日', '犯者减寿', True, ''),),
 '4-7': (('南斗、北斗、西斗同降', '犯者减寿', False, ''), ('杨公忌', '', False, '')),
 '4-8': (('释迦牟尼佛诞', '犯者夺纪', False, ''), ('万神善会', '犯者失瘼夭胎', False, ''), ('善恶童子降', '犯者血死', False, ''), ('九殿平等王诞', '', False, ''), ('四天王巡行', '', True, '')),
 '4-14': (('纯阳祖师诞', '犯者减寿', False, ''), ('四天王巡行', '', True, '')),
 '4-15': (('月望', '犯者夺纪', True, ''), ('钟离祖师诞', '', False, ''), ('四天王巡行', '', True, '')),
 '4-16': (('天地仓开日', '犯者损寿', False, ''),),
 '4-17': (('十殿转轮王诞', '犯者夺纪', False, ''),),
 '4-18': (('天地仓开日', '犯者损寿', False, ''), ('紫徽大帝诞', '犯者损寿', False, '')),
 '4-20': (('眼光圣母诞', '', False, ''),),
 '4-23': (('四天王巡行', '', True, ''),),
 '4-25': (('月晦', '犯者减寿', True, ''),),
 '4-27': (('斗降', '犯者夺纪', True, ''),),
 '4-28': (('人神在阴', '犯者得病', True, '宜先一日即戒'),),
 '4-29': (('四天王巡行', '', True, ''),),
 '4-30': (('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')),
 '5-1': (('南极长生大帝诞', '犯者夺纪', False, ''), ('月朔', '犯者夺纪', True, '')),
 '5-3': (('斗降', '犯者夺纪', True, ''),),
 '5-5': (('地腊', '犯者削禄夺纪', False, ''), ('五帝校定生人官爵', '犯者削禄夺纪', False, ''), ('九毒日', '犯者夭亡，奇祸不测', False, ''), ('杨公忌', '', False, '')),
 '5-6': (('九毒日', '犯者夭亡，奇祸不测', False, ''), ('雷斋日', '犯者减寿', True, '')),
 '5-7': (('九毒日', '犯者夭亡，奇祸不测', False, ''),),
 '5-8': (('南方五道诞', '', False, ''), ('四天王巡行', '', True, '')),
 '5-11': (('天地仓开日', '犯者损寿', False, ''), ('天下都城隍诞', '', False, '')),
 '5-12': (('炳灵公诞', '', False, ''),),
 '5-13': (('关圣降', '犯者削禄夺纪', False, ''),),
 '5-14': (('夜子时为天地交泰', '犯者三年内夫妇俱亡', False, ''), ('四天王巡行', '', True, '')),
 '5-15': (('月望', '犯者夺纪', True, ''), ('九毒日', '犯者夭亡，奇祸不测', False, ''), ('四天王巡行', '', True, '')),
 '5-16': (('九毒日', '犯者三年内夫妇俱亡', False, ''), ('天地元气造化万物之辰', '犯者三年内夫妇俱亡', False, '')),
 '5-17': (('九毒日', '犯者夭亡，奇祸不测', False, ''),),
 '5-18': (('张天师诞', '', False, ''),),
 '5-22': (('孝娥神诞', '犯者夺纪', False, ''),),
 '5-23': (('四天王巡行', '', True, ''),),
 '5-25': (('九毒日', '犯者夭亡，奇祸不测', False, ''), ('月晦', '犯者减寿', True, '')),
 '5-26': (('九毒日', '犯者夭亡，奇祸不测', False, ''),),
 '5-27': (('九毒日', '犯者夭亡，奇祸不测', False, ''), ('斗降', '犯者夺纪', True, '')),
 '5-28': (('人神在阴', '犯者得病', True, '宜先一日即戒'),),
 '5-29': (('四天王巡行', '', True, ''),),
 '5-30': (('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')),
 '6-1': (('月朔', '犯者夺纪', True, ''),),
 '6-3': (('韦驮菩萨圣诞', '', False, ''), ('斗降', '犯者夺纪', True, ''), ('杨公忌', '', False, '')),
 '6-5': (('南赡部洲转大轮', '犯者损寿', False, ''),),
 '6-6': (('天地仓开日', '犯者损寿', False, ''), ('雷斋日', '犯者减寿', True, '')),
 '6-8': (('四天王巡行', '', True, ''),),
 '6-10': (('金粟如来诞', '', False, ''),),
 '6-14': (('四天王巡行', '', True, ''),),
 '6-15': (('月望', '犯者夺纪', True, ''), ('四天王巡行', '', True, '')),
 '6-19': (('观世音菩萨成道', '犯者夺纪', False, ''),),
 '6-23': (('南方火神诞', '犯者遭回禄', False, ''), ('四天王巡行', '', True, '')),
 '6-24': (('雷祖诞', '犯者削禄夺纪', False, ''), ('关帝诞', '犯者削禄夺纪', False, '')),
 '6-25': (('月晦', '犯者减寿', True, ''),),
 '6-27': (('斗降', '犯者夺纪', True, ''),),
 '6-28': (('人神在阴', '犯者得病', True, '宜先一日即戒'),),
 '6-29': (('四天王巡行', '', True, ''),),
 '6-30': (('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')),
 '7-1': (('月朔', '犯者夺纪', True, ''), ('杨公忌', '', False, '')),
 '7-3': (('斗降', '犯者夺纪', True, ''),),
 '7-5': (('中会日', '犯者损寿', False, '一作初七'),),
 '7-6': (('雷斋日', '犯者减寿', True, ''),),
 '7-7': (('道德腊', '犯者削禄夺纪', False, ''), ('五帝校生人善恶', '犯者削禄夺纪', False, ''), ('魁星诞', '犯者削禄夺纪', False, '')),
 '7-8': (('四天王巡行', '', True, ''),),
 '7-10': (('阴毒日', '', False, '大忌'),),
 '7-12': (('长真谭真人诞', '', False, ''),),
 '7-13': (('大势至菩萨诞', '犯者减寿', False, ''),),
 '7-14': (('三元降', '犯者减寿', False, ''), ('四天王巡行', '', True, '')),
 '7-15': (('月望', '犯者夺纪', True, ''), ('三元降', '犯者夺纪', False, ''), ('地官校籍', '犯者夺纪', False, ''), ('四天王巡行', '', True, '')),
 '7-16': (('三元降', '犯者减寿', False, ''),),
 '7-18': (('西王母诞', '犯者夺纪', False, ''),),
 '7-19': (('太岁诞', '犯者夺纪', False, ''),),
 '7-22': (('增福财神诞', '犯者削禄夺纪', False, ''),),
 '7-23': (('四天王巡行', '', True, ''),),
 '7-25': (('月晦', '犯者减寿', True, ''),),
 '7-27': (('斗降', '犯者夺纪', True, ''),),
 '7-28': (('人神在阴', '犯者得病', True, '宜先一日即戒'),),
 '7-29': (('杨公忌', '', False, ''), ('四天王巡行', '', True, '')),
 '7-30': (('地藏菩萨诞', '犯者夺纪', False, ''), ('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')),
 '8-1': (('月朔', '犯者夺纪', True, ''), ('许真君诞', '', False, '')),
 '8-3': (('斗降', '犯者夺纪', True, ''), ('北斗诞', '犯者削禄夺纪', False, ''), ('司命灶君诞', '犯者遭回禄', False, '')),
 '8-5': (('雷声大帝诞', '犯者夺纪', False, ''),),
 '8-6': (('雷斋日', '犯者减寿', True, ''),),
 '8-8': (('四天王巡行', '', True, ''),),
 '8-10': (('北斗大帝诞', '', False, ''),),
 '8-12': (('西方五道诞', '', False, ''),),
 '8-14': (('四天王巡行', '', True, ''),),
 '8-15': (('月望', '犯者夺纪', True, ''), ('太明朝元', '犯者暴亡', False, '宜焚香守夜'), ('四天王巡行', '', True, '')),
 '8-16': (('天曹掠刷真君降', '犯者贫夭', False, ''),),
 '8-18': (('天人兴福之辰', '', False, '宜斋戒，存想吉事'),),
 '8-23': (('汉恒候张显王诞', '', False, ''), ('四天王巡行', '', True, '')),
 '8-24': (('灶君夫人诞', '', False, ''),),
 '8-25': (('月晦', '犯者减寿', True, ''),),
 '8-27': (('斗降', '犯者夺纪', True, ''), ('至圣先师孔子诞', '犯者削禄夺纪', False, ''), ('杨公忌', '', False, '')),
 '8-28': (('人神在阴', '犯者得病', True, '宜先一日即戒'), ('四天会事', '', False, '')),
 '8-29': (('四天王巡行', '', True, ''),),
 '8-30': (('诸神考校', '犯者夺算', False, ''), ('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')),
 '9-1': (('月朔', '犯者夺纪', True, ''), ('南斗诞', '犯者削禄夺纪', False, ''), ('北斗九星降世', '犯者夺纪', False, '此九日俱宜斋戒')),
 '9-3': (('斗降', '犯者夺纪', True, ''), ('五瘟神诞', '', False, '')),
 '9-6': (('雷斋日', '犯者减寿', True, ''),),
 '9-8': (('四天王巡行', '', True, ''),),
 '9-9': (('斗母诞', '犯者削禄夺纪', False, ''), ('酆都大帝诞', '', False, ''), ('玄天上帝飞升', '', False, '')),
 '9-10': (('斗母降', '犯者夺纪', False, ''),),
 '9-11': (('宜戒', '', False, ''),),
 '9-13': (('孟婆尊神诞', '', False, ''),),
 '9-14': (('四天王巡行', '', True, ''),),
 '9-15': (('月望', '犯者夺纪', True, ''), ('四天王巡行', '', True, '')),
 '9-17': (('金龙四大王诞', '犯者遭水厄', False, ''),),
 '9-19': (('日宫月宫会合', '犯者减寿', False, ''), ('观世音菩萨诞', '犯者减寿', False, '')),
 '9-23': (('四天王巡行', '', True, ''),),
 '9-25': (('月晦', '犯者减寿', True, ''), ('杨公忌', '', False, '')),
 '9-27': (('斗降', '犯者夺纪', True, ''),),
 '9-28': (('人神在阴', '犯者得病', True, '宜先一日即戒'),),
 '9-29': (('四天王巡行', '', True, ''),),
 '9-30': (('药师琉璃光佛诞', '犯者危疾', False, ''), ('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')),
 '10-1': (('月朔', '犯者夺纪', True, ''), ('民岁腊', '犯者夺纪', False, ''), ('四天王降', '犯者一年内死', False, '')),
 '10-3': (('斗降', '犯者夺纪', True, ''), ('三茅诞', '', False, '')),
 '10-5': (('下会日', '犯者减寿', False, ''), ('达摩祖师诞', '犯者减寿', False, '')),
 '10-6': (('雷斋日', '犯者减寿', True, ''), ('天曹考察', '犯者夺纪', False, '')),
 '10-8': (('佛涅槃日', '', False, '大忌色欲'), ('四天王巡行', '', True, '')),
 '10-10': (('四天王降', '犯者一年内死', False, ''),),
 '10-11': (('宜戒', '', False, ''),),
 '10-14': (('三元降', '犯者减寿', False, ''), ('四天王巡行', '', True, '')),
 '10-15': (('月望', '犯者夺纪', True, ''), ('三元降', '犯者夺纪', False, ''), ('下元水府校籍', '犯者夺纪', False, ''), ('四天王巡行', '', True, '')),
 '10-16': (('三元降', '犯者减寿', False, ''), ('四天王巡行', '', True, '')),
 '10-23': (('杨公忌', '', False, ''), ('四天王巡行', '', True, '')),
 '10-25': (('月晦', '犯者减寿', True, ''),),
 '10-27': (('斗降', '犯者夺纪', True, ''), ('北极紫徽大帝降', '', False, '')),
 '10-28': (('人神在阴', '犯者得病', True, '宜先一日即戒'),),
 '10-29': (('四天王巡行', '', True, ''),),
 '10-30': (('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')),
 '11-1': (('月朔', '犯者夺纪', True, ''),),
 '11-3': (('斗降', '犯者夺纪', True, ''),),
 '11-4': (('至圣先师孔子诞', '犯者削禄夺纪', False, ''),),
 '11-6': (('西岳大帝诞', '', False, ''),),
 '11-8': (('四天王巡行', '', True, ''),),
 '11-11': (('天地仓开日', '犯者夺纪', False, ''), ('太乙救苦天尊诞', '犯者夺纪', False, '')),
 '11-14': (('四天王巡行', '', True, ''),),
 '11-15': (('月望', '上半夜犯男死 下半夜犯女死', False, ''), ('四天王巡行', '上半夜犯男死 下半夜犯女死', False, '')),
 '11-17': (('阿弥陀佛诞', '', False, ''),),
 '11-19': (('太阳日宫诞', '犯者得奇祸', False, ''),),
 '11-21': (('杨公忌', '', False, ''),),
 '11-23': (('张仙诞', '犯者绝嗣', False, ''), ('四天王巡行', '', True, '')),
 '11-25': (('掠刷大夫降', '犯者遭大凶', False, ''), ('月晦', '犯者减寿', True, '')),
 '11-26': (('北方五道诞', '', False, ''),),
 '11-27': (('斗降', '犯者夺纪', True, ''),),
 '11-28': (('人神在阴', '犯者得病', True, '宜先一日即戒'),),
 '11-29': (('四天王巡行', '', True, ''),),
 '11-30': (('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')),
 '12-1': (('月朔', '犯者夺纪', True, ''),),
 '12-3': (('斗降', '犯者夺纪', True, ''),),
 '12-6': (('天地仓开日', '犯者减寿', False, ''), ('雷斋日', '犯者减寿', True, '')),
 '12-7': (('掠刷大夫降', '犯者得恶疾', False, ''),),
 '12-8': (('王侯腊', '犯者夺纪', False, ''), ('释迦如来成佛之辰', '', False, ''), ('四天王巡行', '', True, ''), ('初旬内戊日，亦名王侯腊', '犯者夺纪', False, '')),
 '12-12': (('太素三元君朝真', '', False, ''),),
 '12-14': (('四天王巡行', '', True, ''),),
 '12-15': (('月望', '犯者夺纪', True, ''), ('四天王巡行', '', True, '')),
 '12-16': (('南岳大帝诞', '', False, ''),),
 '12-19': (('杨公忌', '', False, ''),),
 '12-20': (('天地交道', '犯者促寿', False, ''),),
 '12-21': (('天猷上帝诞', '', False, ''),),
 '12-23': (('五岳诞降', '', False, ''), ('四天王巡行', '', True, '')),
 '12-24': (('司今朝天奏人善恶', '犯者得大祸', False, ''),),
 '12-25': (('三清玉帝同降，考察善恶', '犯者得奇祸', False, ''), ('月晦', '犯者减寿', True, '')),
 '12-27': (('斗降', '犯者夺纪', True, ''),),
 '12-28': (('人神在阴', '犯者得病', True, '宜先一日即戒'),),
 '12-29': (('华严菩萨诞', '', False, ''), ('四天王巡行', '', True, '')),
 '12-30': (('诸神下降，察访善恶', '犯者男女俱亡', False, ''),)}

FOTO_DAYS = {'1-1': ('弥勒菩萨圣诞',),
 '1-6': ('定光佛圣诞',),
 '2-8': ('释迦牟尼佛出家',),
 '2-15': ('释迦牟尼佛涅槃',),
 '2-19': ('观世音菩萨圣诞',),
 '2-21': ('普贤菩萨圣诞',),
 '3-16': ('准提菩萨圣诞',),
 '4-4': ('文殊菩萨圣诞',),
 '4-8': ('释迦牟尼佛圣诞',),
 '4-15': ('佛吉祥日',),
 '4-28': ('药王菩萨圣诞',),
 '5-13': ('伽蓝菩萨圣诞',),
 '6-3': ('韦驮菩萨圣诞',),
 '6-19': ('观音菩萨成道',),
 '7-13': ('大势至菩萨圣诞',),
 '7-15': ('佛欢喜日',),
 '7-24': ('龙树菩萨圣诞',),
 '7-30': ('地藏菩萨圣诞',),
 '8-15': ('月光菩萨圣诞',),
 '8-22': ('燃灯佛圣诞',),
 '9-9': ('摩利支天菩萨圣诞',),
 '9-19': ('观世音菩萨出家',),
 '9-30': ('药师琉璃光佛圣诞',),
 '10-5': ('达摩祖师圣诞',),
 '10-20': ('文殊菩萨出家',),
 '11-17': ('阿弥陀佛圣诞',),
 '11-19': ('日光菩萨圣诞',),
 '12-8': ('释迦牟尼佛成道',),
 '12-23': ('监斋菩萨圣诞',),
 '12-29': ('华严菩萨圣诞',)}

TAO = {'1-1': (('天腊之辰', '天腊，此日五帝会于东方九炁青天'),),
 '1-3': (('郝真人圣诞', ''), ('孙真人圣诞', '')),
 '1-5': (('孙祖清静元君诞', ''),),
 '1-7': (('举迁赏会', '此日上元赐福，天官同地水二官考校罪福'),),
 '1-9': (('玉皇上帝圣诞', ''),),
 '1-13': (('关圣帝君飞升', ''),),
 '1-15': (('上元天官圣诞', ''), ('老祖天师圣诞', '')),
 '1-19': (('长春邱真人(邱处机)圣诞', ''),),
 '1-28': (('许真君(许逊天师)圣诞', ''),),
 '2-1': (('勾陈天皇大帝圣诞', ''), ('长春刘真人(刘渊然)圣诞', '')),
 '2-2': (('土地正神诞', ''), ('姜太公圣诞', '')),
 '2-3': (('文昌梓潼帝君圣诞', ''),),
 '2-6': (('东华帝君圣诞', ''),),
 '2-13': (('度人无量葛真君圣诞', ''),),
 '2-15': (('太清道德天尊(太上老君)圣诞', ''),),
 '2-19': (('慈航真人圣诞', ''),),
 '3-1': (('谭祖(谭处端)长真真人圣诞', ''),),
 '3-3': (('玄天上帝圣诞', ''),),
 '3-6': (('眼光娘娘圣诞', ''),),
 '3-15': (('天师张大真人圣诞', ''), ('财神赵公元帅圣诞', '')),
 '3-16': (('三茅真君得道之辰', ''), ('中岳大帝圣诞', '')),
 '3-18': (('王祖(王处一)玉阳真人圣诞', ''), ('后土娘娘圣诞', '')),
 '3-19': (('太阳星君圣诞', ''),),
 '3-20': (('子孙娘娘圣诞', ''),),
 '3-23': (('天后妈祖圣诞', ''),),
 '3-26': (('鬼谷先师诞', ''),),
 '3-28': (('东岳大帝圣诞', ''),),
 '4-1': (('长生谭真君成道之辰', ''),),
 '4-10': (('何仙姑圣诞', ''),),
 '4-14': (('吕祖纯阳祖师圣诞', ''),),
 '4-15': (('钟离祖师圣诞', ''),),
 '4-18': (('北极紫微大帝圣诞', ''), ('泰山圣母碧霞元君诞', ''), ('华佗神医先师诞', '')),
 '4-20': (('眼光圣母娘娘诞', ''),),
 '4-28': (('神农先帝诞', ''),),
 '5-1': (('南极长生大帝圣诞', ''),),
 '5-5': (('地腊之辰', '地腊，此日五帝会于南方三炁丹天'), ('南方雷祖圣诞', ''), ('地祗温元帅圣诞', ''), ('雷霆邓天君圣诞', '')),
 '5-11': (('城隍爷圣诞', ''),),
 '5-13': (('关圣帝君降神', ''), ('关平太子圣诞', '')),
 '5-18': (('张天师圣诞', ''),),
 '5-20': (('马祖丹阳真人圣诞', ''),),
 '5-29': (('紫青白祖师圣诞', ''),),
 '6-1': (('南斗星君下降', ''),),
 '6-2': (('南斗星君下降', ''),),
 '6-3': (('南斗星君下降', ''),),
 '6-4': (('南斗星君下降', ''),),
 '6-5': (('南斗星君下降', ''),),
 '6-6': (('南斗星君下降', ''),),
 '6-10': (('刘海蟾祖师圣诞', ''),),
 '6-15': (('灵官王天君圣诞', ''),),
 '6-19': (('慈航(观音)成道日', ''),),
 '6-23': (('火神圣诞', ''),),
 '6-24': (('南极大帝中方雷祖圣诞', ''), ('关圣帝君圣诞', '')),
 '6-26': (('二郎真君圣诞', ''),),
 '7-7': (('道德腊之辰', '道德腊，此日五帝会于西方七炁素天'), ('庆生中会', '此日中元赦罪，地官同天水二官考校罪福')),
 '7-12': (('西方雷祖圣诞', ''),),
 '7-15': (('中元地官大帝圣诞', ''),),
 '7-18': (('王母娘娘圣诞', ''),),
 '7-20': (('刘祖(刘处玄)长生真人圣诞', ''),),
 '7-22': (('财帛星君文财神增福相公李诡祖圣诞', ''),),
 '7-26': (('张三丰祖师圣诞', ''),),
 '8-1': (('许真君飞升日', ''),),
 '8-3': (('九天司命灶君诞', ''),),
 '8-5': (('北方雷祖圣诞', ''),),
 '8-10': (('北岳大帝诞辰', ''),),
 '8-15': (('太阴星君诞', ''),),
 '9-1': (('北斗九皇降世之辰', ''),),
 '9-2': (('北斗九皇降世之辰', ''),),
 '9-3': (('北斗九皇降世之辰', ''),),
 '9-4': (('北斗九皇降世之辰', ''),),
 '9-5': (('北斗九皇降世之辰', ''),),
 '9-6': (('北斗九皇降世之辰', ''),),
 '9-7': (('北斗九皇降世之辰', ''),),
 '9-8': (('北斗九皇降世之辰', ''),),
 '9-9': (('北斗九皇降世之辰', ''), ('斗姥元君圣诞', ''), ('重阳帝君圣诞', ''), ('玄天上帝飞升', ''), ('酆都大帝圣诞', '')),
 '9-22': (('增福财神诞', ''),),
 '9-23': (('萨翁真君圣诞', ''),),
 '9-28': (('五显灵官马元帅圣诞', ''),),
 '10-1': (('民岁腊之辰', '民岁腊，此日五帝会于北方五炁黑天'), ('东皇大帝圣诞', '')),
 '10-3': (('三茅应化真君圣诞', ''),),
 '10-6': (('天曹诸司五岳五帝圣诞', ''),),
 '10-15': (('下元水官大帝圣诞', ''), ('建生大会', '此日下元解厄，水官同天地二官考校罪福')),
 '10-18': (('地母娘娘圣诞', ''),),
 '10-19': (('长春邱真君飞升', ''),),
 '10-20': (('虚靖天师(即三十代天师弘悟张真人)诞', ''),),
 '11-6': (('西岳大帝圣诞', ''),),
 '11-9': (('湘子韩祖圣诞', ''),),
 '11-11': (('太乙救苦天尊圣诞', ''),),
 '11-26': (('北方五道圣诞', ''),),
 '12-8': (('王侯腊之辰', '王侯腊，此日五帝会于上方玄都玉京'),),
 '12-16': (('南岳大帝圣诞', ''), ('福德正神诞', '')),
 '12-20': (('鲁班先师圣诞', ''),),
 '12-21': (('天猷上帝圣诞', ''),),
 '12-22': (('重阳祖师圣诞', ''),),
 '12-23': (('祭灶王', '最适宜谢旧年太岁，开启拜新年太岁'),),
 '12-25': (('玉帝巡天', ''), ('天神下降', '')),
 '12-29': (('清静孙真君(孙不二)成道', ''),)}

LUNAR = {'1-1': '春节', '1-15': '元宵节', '2-2': '龙头节', '5-5': '端午节', '7-7': '七夕节', '8-15': '中秋节', '9-9': '重阳节', '12-8': '腊八节'}

LUNAR_OTHER = {'1-4': ('接神日',),
 '1-5': ('隔开日',),
 '1-7': ('人日',),
 '1-8': ('谷日', '顺星节'),
 '1-9': ('天日',),
 '1-10': ('地日',),
 '1-20': ('天穿节',),
 '1-25': ('填仓节',),
 '1-30': ('正月晦',),
 '2-1': ('中和节',),
 '2-2': ('社日节',),
 '3-3': ('上巳节',),
 '5-20': ('分龙节',),
 '5-25': ('会龙节',),
 '6-6': ('天贶节',),
 '6-24': ('观莲节',),
 '6-25': ('五谷母节',),
 '7-15': ('中元节',),
 '7-22': ('财神节',),
 '7-29': ('地藏节',),
 '8-1': ('天灸日',),
 '10-1': ('寒衣节',),
 '10-10': ('十成节',),
 '10-15': ('下元节',),
 '12-7': ('驱傩日',),
 '12-16': ('尾牙',),
 '12-24': ('祭灶日',)}
