"""Almanac advice, transcribed record by record: two hex digits per word."""

WORDS = """
祭祀 祈福 求嗣 开光 塑绘 齐醮 斋醮 沐浴 酬神 造庙 祀灶 焚香 谢土 出火 雕刻 嫁娶 订婚 纳采 问名 纳婿 归宁 安床 合帐 冠笄 订盟 进人口 裁衣 挽面 开容 修坟 启钻 破土 安葬
立碑 成服 除服 开生坟 合寿木 入殓 移柩 普渡 入宅 安香 安门 修造 起基 动土 上梁 竖柱 开井开池 作陂放水 拆卸 破屋 坏垣 补垣 伐木做梁 作灶 解除 开柱眼 穿屏扇架 盖屋合脊 开厕
造仓 塞穴 平治道涂 造桥 作厕 筑堤 开池 伐木 开渠 掘井 扫舍 放水 造屋 合脊 造畜稠 修门 定磉 作梁 修饰垣墙 架马 开市 挂匾 纳财 求财 开仓 买车 置产 雇佣 出货财 安机械 造车器
经络 酝酿 作染 鼓铸 造船 割蜜 栽种 取渔 结网 牧养 安碓磑 习艺 入学 理发 探病 见贵 乘船 渡水 针灸 出行 移徙 分居 剃头 整手足甲 纳畜 捕捉 畋猎 教牛马 会亲友 赴任 求医 治病
词讼 起基动土 破屋坏垣 盖屋 造仓库 立券交易 交易 立券 安机 会友 求医疗病 诸事不宜 馀事勿取 行丧 断蚁 归岫 无
""".split()
GODS = """
无 天恩 母仓 时阳 生气 益后 青龙 灾煞 天火 四忌 八龙 复日 续世 明堂 月煞 月虚 血支 天贼 五虚 土符 归忌 血忌 月德 月恩 四相 王日 天仓 不将 要安 五合 鸣吠对 月建 小时
土府 往亡 天刑 天德 官日 吉期 玉宇 大时 大败 咸池 朱雀 守日 天巫 福德 六仪 金堂 金匮 厌对 招摇 九空 九坎 九焦 相日 宝光 天罡 死神 月刑 月害 游祸 重日 时德 民日 三合
临日 天马 时阴 鸣吠 死气 地囊 白虎 月德合 敬安 玉堂 普护 解神 小耗 天德合 月空 驿马 天后 除神 月破 大耗 五离 天牢 阴德 福生 天吏 致死 元武 阳德 天喜 天医 司命 月厌 地火
四击 大煞 大会 天愿 六合 五富 圣心 河魁 劫煞 四穷 勾陈 触水龙 八风 天赦 五墓 八专 阴错 四耗 阳错 四废 三阴 小会 阴道冲阳 单阴 孤辰 阴位 行狠 了戾 绝阴 纯阳 七鸟 岁薄
阴阳交破 阴阳俱错 阴阳击冲 逐阵 阳错阴冲 七符 天狗 九虎 成日 天符 孤阳 绝阳 纯阴 六蛇 阴神 解除 阳破阴冲
""".split()
# sixty day pillars, each with twelve month branches: recommended/avoided
DAY = """
8319000776262322200c1e1d/06292c2e1f 0007010618111a332d302f15262322271e530270164c/560f7129 0f00030102705283842e544779/2920454f754c38 00077663/0f29713820 528384530003010215392c20/1112180f29560d2e1f7545 0f110001702e2f71291f20/06 00343589/7129565a 110001392e1f20/0f7129 0f0001020d700339332c192a83842971152e1f0c20262322/0652563861 000150402627/0f292f2b 111879076a1a171523221e272024/5229700f1d012e2b0c2f 00790f072c2e0103047018111a262322271e7a302f5448637545/29381556
0f11185c0001092a0d7014692983847b7c2c2e302f802d2b/06454f208a 003989/88 00010275261e0c2322/6303706f0f292e1f 000304080618110f1a2e2d0d3371292a2c302f7566010239454e802b/6320 004d64547589/0f29 110001527b7c2e75/0f20 00060403702c2e4c154947443d651f/0d29 00343589/88 1f2027260076232289/0f295283 0079110f0304062a528423222627207a19701a2c2e2f5d83/2945 390050404c89/0f5283296920 6a79363f65/0f292b71
111852838470795b302f404533802d152b39201e23221d212726/0f2e1f010d29 073918111a17332c2e71292322271f1e20481d45548384/38002f70 033945302f838475262720/297071000f2e1f38 181117332c2e1526232227201f1e3e/38030f5229 2a0d11180f52848353037039156358332c2e/38200026 0f11707129/2e1f20 528384530339332e152c2f58631f20/380d000f29 0f1152702e2f71291f20/0001 34357c89/0111180f2920 001779332d2322271e2007760304/38290f 261f1e20232289/52290058363f 000118111a332c2e2d1571292a23222627200c7a791970302f5d5283845456/387c454f
004023222089/0f29111847 700f181126151e20001a7919/ 000102030f7039453319152e2d2f63751f0c1e20/71290d3847 0103040818111a155284262322271e20217a79708330/38472e63 00702c2e164c157126271f1e202425363f/29386a032b 1811002e1f8384/0f20 006589/29704720 0f1152702e2f71291f20/7a 0f030001022a0d3945297115528384637020/476a382e1f44 0007343589/71297063 0f0001020370332c2e2f1575261f/2971476a45835238 000118111a332c2e2d1571292a2627200c7a1979/387c
11180001032a0d70795b2c2e302f802d4e152b33714161201f26/52095847 5040262789/0f712903 7917155b0001025d/0f522e3820 00483f/6338200f 005089/032c2e1f 0f1a0070153871291f20/7a76 0f1118175c000301027039450d29332c2e2f15631f/8a5820 00385476/521f 5b11180001020328700d332c2e195283847115632f751f2720/290f4766 0004037039180f332d152952262322271f0c533a83/41178047 0007343589/0f292f7020 00040318110f1519262322271e2021/52831f38
0f17000102061979454f3a15477677/241f8a20 7911192c2e302f00030401060f1571292a75/707c2052 38394089/0001202b 03041a174533302f56795b3e808339528454/700f2920 0f00010206030d7129302f79802d7c2b5c4744/11701d20528438 3f6589/88 0f161a17452f0d33712c2e2b5443633f/150170208a03 0f528400012e7129/0920 0f0001021a175d2c19152e302f7183846379/8a20704f754541 0079192e2f030417332d1552847a5d/4e20 00021719792b155d5466774962/010611180f2920 0039343589/88
34357c89/7129 0079701811072c2e01060f33152627200c7a1a302f4576631f2b/80523829 0f00175058/5d6b80382e 17262322274050/80387c6b 000403110f527079156523221e2027/0129802e1f6b 0f1811700001062e2f1f20/7129 70786289/06802e1f 363f6526232227201e89/88 0f11180300706a2e1549466319/292f26806b382b207545 001a170f1379232227761926/712938 0f1118528384530001035c702971152b332c2e63201f1e23222621/6b75452d4f80 00390103040618111a17332c2e262322271e157a7071302f45631f2075/807c
1551000403706a454f3a3d771f262322271e1d21/382b415220 39343589/88 110f0001702c2e7129201f/5206 000f01111a1615292a2627200c2c670279538384543e49/6345 00384089/15296763 18117915384c/5220 0f0001020370390d332c1929712e157563548384534c/20248a 0f11700001397129/2e20 00704f0d332c2e2d15363f261f20274c/0f2906036f47 88/26205283 00177179546a76/0f52443d1f 000118111a16175b154c26271e200c232279302f5d528384547543/0f297c7a
0f000102037039297175261f1d21/454f2e156341 040370181123220f1326271e2021/2915 0007396a48343589/0f20 00010618111a16332c2e2f2d27200c07483a450d/15528438 000102060775261f20/71290f7015 07404826271f1e2089/88 5b000102073911522c302f3a678c363f33490d482425200c1e2322/0f15382e1f61 0f0001067c1f20/5229 0f11180001027039302971542f7526201e/63472e151f58 001a170f5b332e2d7129261e203e5d/15035283 0001020603700f7b7c2e1f692d48302f565a586366240c21/2b151a2920 074889/88
00076a54196348767765/7920297115528a0d382b 262322271e202189/1f45 111800012a0d2c705271292e201f/15386179 34357b7c/88 1100010206702d804e2b2620/0f52540d 0f00010203700d332e2f192971152b52838453631f20/ 00076a74504089/5229702c7d 0f705215261e20/012e1f 390001022c2e302f1575804b2d261f20/0d0f0319707d5229717a 007022230726/2e17712952302f 0f1a1716007015713f261f2720/5263587d2b4703 88/
11180001020439332c2e302f2b5844477515634c1f2721/0f520d19267a29717020 0001060403232226380f767754/56802015 3f656477/0f2b712920 002e2f18110f5b3315292a26271f20210c7a70710102393e19/035a 0007397b7c343589/01065220 00037039041a26271f1e202322/0f2f2c335129452e0d3a 0f110001708471292e1f20/0338805156 0f001a651707/565a58202e1f4763 076a79040363660f5d363f/52292e1f20382f155601 00077a7089/88 005c702c2f802b154c78/5a562e1f208a454663 010670181126271f202165/2938
297170192c2e2d2f2b3e363f4c/0f52156320010347 0070071a010618110f5b52846775/632620 11000170792c2e7129/0f52201f 000304111a33152d2e302f71292a5284530770022b/0f634520 0776776564/000f293820 0039343589/88 111817000106702c2e71292a0d33802d302f4e2b44/0f522520 297115030102195283840d332c2e/0f1f5863201d8a 006a38075040/0f630141202b454f 88/ 00037039454f0d332971152c4c48/090f476341382e 000770171989/0f2e2038
4c78/297172380d2a2e0f474841 00010607155b5c26271e2021165d83/38470f29 110f00017052792e1f1e/71290d2b20 1a16170f13152654/3852204f 00010206111803302f565a802d4e2b881f261e0c/0d0f52 0f0001020370332e2f0d19297115637566302b2c3979/ 0007343589/290f71 0039077426271f1e20/0f29713852832b63 0f1118000106287129705b032c2e302f802d4e2b201f/5284583841 07262723221f40/0f712952 11185283847975661271393d692d15565a201e262322/292f060d0c 000106040318111a170f33292a26276a201d0c7a71077c1f1e74694f/52
18115c0001702a2c2e2f5283847129795b6375802d154c/1f208a24 3948007889/ 0001020626232227201e/0f2e03801f 0018112c2e01040607332d292a09270c2322696870302f47023945/38205280 00763989/0f20 528384000103451915332c2e631f2720/29716a0d0f70 0f5b8370000102060403161a494447/386a418a20 343589/88 002876396577261f20/5283290f 0f000102070d70332c2e19528384297115637526201e2322/ 004089/0f52 88/
1811795b032c2e302f802d4163754c27261e1d2120/010d0f29521f 528384530339454f0d297115332e2f637520/0f007058 1179302f842627201e/0071292e1f 18111a16175b3315262322271f1e201d215d838454433e363f754551/00030f29 110f70528475660d7129/012e1f2026 653989/88 11177b7c52842c2e5b1f20/060071292f0f 0f03706a4f0d332c528384532e29711563/450075 07343589/0652 03392d2e332f211d201f1e27/0f7015380029710d1958 767789/5283002920 5283845354037029711575262720/631f58000f2e3801
00401d232289/71290f4720 5283845444360f11756415/2c2f29016b472e2b2038 0001067052842e71291f20/030f384775 00700f1715262720/472e3863 0001020617385483/030f47202b6b 0f00010203528384157033/752971206b452f2b262e 003889/52201f1d47 0f0370010239332e2c19528384532971156375262720/ 181100012a0d52842953411e20/2e1f0f4715 343589/88 0f111800010206032a0d097170292d302f1575761320/521f4725 0f0001020370390d3319297115632e2c752620212322/
0f170001020e032a70692c2e302f802d2b0d7129474c201f2322/5211183809615d 0039504089/ 79026a17657603/522e201f 3f88/2b38200f 0039787089/2e1f8a034f206b 0f000102700d332c2e297115383f631f20/034756 000102062a397129797b7c2e1f2425/162f5d2026 003854637519/205d1d1f52151e21 0f0001062871292e7c528384032c5c2a15767765/11185d8a206b 0f0102700d332c2e2f0319528384531529716345261f2322/ 000739343589/520f 0339332c2e1575201e26/0f520d631f29712a724738
0f1811000102062a0d2c2d804b2b672e2f7129/70471f8a20 0f0001022e792d3e75663d19/472063703852292b 004089/0f014720 030402111a16175b4f3a2b153e0079015d54528483696a51/7006200f 0706397b7c794c636a48/520f71294720 394889/88 0f172c2e387129363f7566512d4e4461/0103475220 0001020352666a/0f7020262938172f 0f181138171a7975665b52845415/47701f8a20 5283845300031929150d332c2e63/0f217045208a7175 181179838454637566/0f52290120 343589/88
0007343589/0f71296b7080 0f000102032971152c2e19/4720637038522b 010206110f452c2e7129095b5226232227201f0c/58804b036b2b38 000f1320/63803829 02703918110f7919155283756626232227201e/012c2e1f0c 528384530370331929272e2b2f631f1d20/0f156b38 008354/06462f2e1f 00261f2322271e200c89/ 0f181100062839707952542c2e302f03565a7566441f1e/0d29802b20 006a79190f6f2627/6b4620453829 5c0f1811790070528471291f20/2f03805125 0f00030d70332c2e3952838453542971156375/6b20
175447440d15838477656a49/2b2e1f8a2022 343589/88 69687011180f791966762627201e/0352292e80 0079181a165b332f2b262322271e2021030469702d4e49712930845d/454f 00384089/0f202e157c 1979/3f2f2e45207d 0f181117795b5c007054292a0d690403332d2c2e66632b3d/8a454f38 007083624c/0f38202e7d4f45471f71 0f280001363f8b4326232220/2e1f47032f7d 00211d1e232289/ 003854767789/2e1f5220 00010203396a79637566201d211e/29387d71707a
11187129705b79000106032a0d397b6f7c802d2c2b61756627261e0c1d21/0f2e154147 0f52838403700d332c29712e1f27201e2322/15450175 00077b7c4834353989/295220 00030401061a16170f332e71292627200c02696a45514f0d2c2d4e497a/2b 5c0001020652835b0e03804b2d4e2b752024210c/292e565a 074048261f202322/0f71454f15000180 030270170f45513a2c71295283842a0d532d24252623222720/155a382e1f 0f000102030d332c2e195283845329716375261e2322/ 0f17000728705448757a/522e1f15562f 0f7045332c2e71201f1d21/47011552295303 0f18110001707b7c0d7129/52565a152b20 00076527262322/1552835a201d0f38
0007385476771548/52061f20 00261f23221e201d2189/ 00170f332c2e2d2f802952443f26232227201f/15637c38 007c343589/88 000103020611187b7c2d4e616439201e0c26/522e4744 0f000102030d70332e3919528384532971152b2f201f0c/ 00076a0f3874485040/06707c25 0f033915666a52261e272048/382e2f6329712c01 00076a74173926271f1e20/0f7029522b 00704889/88 170007386a7448363f261f1e/030f79636f20 3989/
0106111839513a2c2e2d2f8c804b4723221f63/71522920 003989/88 006526232227201f/89 0f00701784831952712c2e1526271f/03380620 000734357b7c3989/0f52832920 0001020339161745514f2c190f1a152e2d2f304979/ 5b71297000010611182a0d39792c2e332d4e80151f202621/52454f38 003989/88 04170f79195d1a637566363f76/01522e8a20 0f00040370396a742e15444948/458a384f20 11180f000102587b7c5283847971302f804b2b497675/09612e1f20 1500443626271f1e/29710f47380d195203
1118000717161a2c2e3371292b56433d6375363f/0f010347208a 52838454754c2971150301022e/0f63206a0938268a41 0403010218111a17332c2e2d2b15713e6575/4538206429 52848353000103297115332e2f19/0f8a514f6a66207545 88/ 3435073989/88 00077665776489/52830f208a 00010203450d3329152c2e2f5375/0f638a6a1d38 700718111a302f717566/0f2b2e20 5283845303702971150d2f/388a6a6d0f20 705c4c39171a4f0e7971295b5248/0f2e1f1d 000789/
161a7889/292e1f0f3861 151a83842627202322/580f7003632e1f297c 0007030401021811171a0f2e2322271f1e706749528483/202f2938 6a170f19/5845754c201f4f3824 0004031811171a5b332c2e155d52/0d292045 11180f5c000102030d332c2e195329711563261f202322/5284 34357b7c7789/0f29 39006a26201f/0f520d38580629712b 11180f000128032a0d7129302c2e2f2d802b09411f1e20/52845438 0007504089/88 076a171552847983546578/712970010f 0f0370390d332c192e2971637547202322/5815
11180f00012a0d70795d7b7c39332d2c2e4e4863664c/064f478a20 00394c786f89/0f2e4420 000102081a158483262322270c1e/700f292e 0f000301020d297115332e1f0c/16522026 0089/090f15 5283840001032e1570637566302f391f/0f47297120 0f705b0004037c5d15653f1f26/522b4738 343589/88 0076777566262322271f201e/0f11185229 0f00010203700d332c2e1929711552838453637526202322/ 004c504089/0f521547 031a2b7915656a/0f177001204529710d632e2f
5452838479195d00012a0d7b7c2c2e3348156366242526201e/0f7129 0704031118528384542d2e4e49201f1e1d2127/292b000c 1a162623227954/0001710f29 1545332c2e2f84836375662620/0f0003700d71292b 18110f197983842e230c271f1e7a70525463/26202915 39701117302f713819297566/004551152c2e201d1f 181179190e332c2e2d52637566262322271f20/ 528384542e03700f111869565a7566631f1e2021/297138000c 34357c89/8a20 393589/88 7665262322271f201e21/0f00298071 0f03700d332c2e2971152f52838463/01004547380c
00262789/292c2e1f2b2f 0f706a151e201d528384544466/47010c2e292f2c38 00061a161718110f292a0c26271f21797001022f49/47 000102060f17705283797823221e2027/2e7129 00011a1615262322271f1e200c214c/472b0f11 0001020370528384631575712d2e4e3e581f1e1d/292c2b45262080 0076645089/88 0f1118000102030d70332c2e195283845329711563261f0c20/47457525 010670170f0e3a294152838454262322271f201e/2e181544 007c343589/88 00010206090d5b7952838454685d7b7c443d77656366201f1e/030f47454f 0f000102030d7033528384534529711520/634758
040318111a17332c15290d200c7a/47450638 394089/71294709636f7c44 1516291211020056/063820 3f74397677658988/0f384720 00190f153917701a48/472e1f2003 0f83843d363f776424/15462f2c52032971 0f1100017b7c702e7129/522b 00173883546365756619/466115201f701d475224 01023918112e2d493e52756624262322271f20/ 0f11180003706a4f0d332c2e192971155363751f20262322/5247464161 343589/88 006a6f391974/0f2e614447702c292f71201f3852
0004031a170f11332c2e302f1571292a657677451949/70201d52 0f0003450d3329712c2e2f1575/528a63705a20587d7c 3840/0001202b89 5452848303152f802c2d/2e1f208a7a700f29710c7d 11037b7c2e2f7129/0f5220 3f8b657789/0f2029702e7d 1a38712975/0f20 0f18000102111a1703154f2c2e382d2f807566/7163708a1f207d 04033918110f0d2c2e7129332d2b72528384547566/ 528384545363000103332e15/0f1f197029710d757d20 790f181113332c2e2d302f1554/70012038 34357b7c89/0f20
007b343589/88 0f111829711500010370390d332e750c201f/4552832f382b80 0403080618111a16332e2f152a09537919702c5445490d75072b/80632038 00010f17505840/565a803852838463 007952151e20/0f2e1f 11180f0001020339700d29716375662e1f2620/38155680 0026271e20/2f2e1f 5d0007363f232227261e21/037c0f471f20 017018110f1a2e15495247838463462322271f/ 0f006a1938271779/565a4575522f801f1e63 00040301067018111a0f332c15292a261e200c7a7919712f5d52838454/5617454f 11180f00010e715229702e79692c2d2b15093954444c66/2f565a8061
00010670175b71292a152322271e/03637c2b38 0034353989/522e1f 0001081811171a160f1571292a26271e20396476452b0d/632e5238 0f00030102700d19297115332c2b535448/2e45208a 00384740/0f20 03111a171538193e3f/0f632c2e70454f200c 18117001061579/712920 0f00701a17830e544c5c78/7129632e1f38208a452f 0f000106387129/2e1f 001d23221e2789/52290f2e1f20 003826232277/632e2052 000102033945332c6375201d21/0f1929710d70
04067033392c7161262322271e1d210c/ 0f1118032a0d545283841a802d2c2e2b71296366774744201f26232221/010900150c 7b34/88 0f03000102700d29713963451f0c20/528338542f158061 0006522e261f20/0f7129 110f1a6a702c2e1952838453712f6375/4520150001 0f11707b7c5271291e20/2e1f 2c2e5b000739337c38802d44484c2425201f1e272621/52297015 0f707500261e20/382e1f 0f175b3975660745514f2b4825201e211d/010352292e 000106073018110f3329271e0c7a0d75/38262015 07487677393f89/0f2952151f1d
000715547776/521f 0006261f1e201d212322/0f29381118 010206040318110f2e292a27200c70072c302f541f392b49/3815 34357b7c89/030f 0f11000170717b/522e1f 5283845300010670802d2c2e4e155b201f1e232221/380f71296a 0f00074850/8a20 0f11185c0370332d152322528384636626271e/2f292c2e1f000106 181100012c2e2f1f20/0f52 007007482089/2e1f5847 0f005b261f20/2e2f 0f17000102060370392e52838453331f/452f2c266a79292b2038
181100012c2e2f1f/0f38 0006547677/0f5229151f20 64262322271f2021/0f2f2938 118384155b20272e1f21/0f0338 007b7c3989/88 0f1118000102030d70332e2c192971153953631f0c262720/52846125 0f1811705200012e71291f20/38 000f7765/2e1f7c46 181170792c2f7129/5220 0f110039702c2e522f1574487b7c2d4e804b/098a20453861 384c/8a20 161a0f1526271f4c/5861034738
70076a363f/2920 111800010206071979697c67474475664c/0f16298a20 0002070818111a16175b153e445d5452848365647576/2038454f 0001020607036a5d397c2163664744/0f4e25208a 076564/0f2920 000739343589/0320 18117000012c2e7129/5220 111879690001020370396a2e2d528384543e637566/0f380d582920 07504089/0f01 111852838453546319297115030d332b2c/060f8a2e38201f 076a696819/0f29 3950177089/522e1f0f20
7889/292e1f 000102071283542627201d210c4c78/29580f2e6352031f 000701020618111a1752848354230c7027/26203829 5483846376656419786a/29803020 /88 18110f3900010203700d3329711563752e1f0c201d/38525d 88/ 00013974150726271f1e200c/0f06520d297170382b45 0f0001062e7129/5220 0007504089/0f291570 036f791e20/522e1f 11180f0001020370391952845329712b632e7b7c792d2c8020/385d15
0f707b7c00012f75/5220 00784c793989/0f29702e1f208a 000102261e2027/03476f700f2971382e 0f18110001702c2e71291f0d2b152f2127/52831620 393589/88 000102031811392e2d19528384543e4463751f20/152f1a290f 0f18110001261f20/0352 34353989/0f20 7665261f20/0f29 030102062c2e543e3d636679/380d1946297100 00654c89/ 00046a7966444c7765/010c202f38520f70292e
528403395b2f1e20/0f01 0f03390d332c1929711563261d2e2322/382000521118750c706b 15391a302f83845475662627201e/0f702e46290047 1784832c2e5b26201f/0f010d29 0f03700d33195284835329711563/01260038206b 00657689/6b0f52 037b7c2e2f261f20/0f 0f528471295b795d2b155333565a446375661f201e272621/00016b0c41 077c343589/88 0339332c2e302b66201d1f27/0d2971010015520f6b 262322271f1e20/7129 70545283842e71291a7933192a5d5a5040/090c384f45208a1d6b
4089/88 702d155483840f63262720/53292f017d4f38442b2e1f47 0f150370002e0d3979528384532971331f1e20/477d 00797084831754/0f2e472d4e1f 0f70161715232238838426271f20/7d0352 0001020311180f702e1f7952838468332d6749443e46630c1e1d21/292b20 006389/88 0f181100010603797b7c802d302f2b6743441f202322/2952477d25 0f18117052000171291e20/2e1f 34357b7c89/7129 0f18117000012e71291f20/527a 0f11180006032a0d70332e011954838471152c202322/58477d63
02060418110d332c2e415b637566262322271f20/520f 4089/030f565a61206b 0f0302791566046f/29710d722a38528384202e45 000739483f66/0f208a2b 70504c7889/88 0f1700707129385c363f3d1f1e232226/80412b202f 0f030001027039452971150d332c2f6327/20528384 11180f71297000010604032a0d793969302f33802d636675/201f52565a1e 0f181100017b7c2e71291f20/036f 0f111800010203700d332c2e192971152f4b49471f270c2322/52562b20 0039343589/ 0f111800037039450d2971332c632026/1f2e2b385283
0f181100012c2e7129/5220 0f181179005b712980152d4e2a0d533358/5270208a 383940/6370018a75202b454f66 54528384036f796a153e65/712963 0001030239450d297115332c2e4c/0f54207052843863 00398b7989/0f20 020f11161a17454f2c2e2d302f2b38434c/20700163 11180f000704030d7c684580302f153867534775/702041 181100015b3875/2e20 0f111800010203391929710d1552838453/2075708a45630941 1811795b5466/0120 003934357b7c89/0f20
7c343589/88 0776776a742623221f200c211d1e/11180f2f5206802b 3907/88 0f17795b54838458/52807c38 110f03706a795215636626271e/0c012f38062c292b 0f111800017c5c2c2e7129/5270153820 003989/88 00262322271f1e203f8b65/52290f0380 0f000102702e15471f1e/294f2b452c2f2680 00177689/0f52804f25 0f1811705200012e71291f20/062b 00481f2023221e27262189/0f292c2e
0001020603691817452c2e2d498344/412b6a096338 00343589/060f52 0f000170390d332e2971152f63751f1e20/52846a38 0f5c111800015b712952841f20/756a25 0040395089/88 0f1118795b65170002195d/52382e8a20 0f00010d0302703352838453297115632e/208a454f 002c7080305c784c62/2e1f4720 0f000102700d332c712e15261f201e/80036a614738 00396577647969271e2322/52012e1f262061 003f89/88 18117900012c2e5b1f20/0f710d5229
393589/88 07565a5283845463756677261f20/010f152961 00397c343548/89 01067071292c2e1f20/1103150f52 000103392e54837548/19700f58157a2038 0007711f204840/010f291538 03027039450d332c2f2d2971528384636626202322/5815 000704036939487c4466/0f70112938 0001020370392f80712b546675201e26/1f58472e15 1707702c2e71291f20/0f52000106111d 000102035270392e2d5863/0f381d2b29212015 000776776548/0f1118152e1f20
076a48/45752f29384c0f204f612b 0007363f8b3989/09292c208a0f 000102030d70332c2e29712f534426201f1e/0f3815 343589/0f715229 00010203390d3329152c2b751e20/2e1f544753524583 000106025b75712904032d302f382b2a0d801e20/2e1f0f 006a5040077448/702b2c0f2f29 54528384700001020339482d301571565a363f637566/06292b201f8a 0039076a7426271f2048/0f79197029717a38 0070/0f292c2e791f 00391a6a15384c4943363f7448/0f0379472b63 5254700001020612692d4e584647336375662e1f1e/71290d2620
000301394f2e154763751f27/0f707a802629710d1920 0f11181200171a7919547638/5215201d 6526232227201f/88 0f170070792c2e261f/0403412322 0039343589/88 0f1118060300017b7c792e39767566261f20/71298051 0f00030102700d332e2c192971155383846375261f1e20/ 005040/522e1f0f2c20 04031975363f6366/0f5401202c5283842e2f 0f18110001702c2e7129/6f454f098a20 00701a17794c0f302f715475/2e454f8a2024 006a583f232227261f20/0f29154703
4f2c2e2b383f443d433663/0f01478a2015 181179000607040d03302f5283844f3a45512b1533664c47/090f702e208a 7100030170391959152e2d2f2b/0f201f4f75668a38 03027011170d332d2c2e2f716152838454/010f201f 3f4889/88 000739343589/8a20 0001020370450d332c2e2d152971/0f52838a201d 18110001032a0d845b7129302f791533536678/0f208a1f1d 3807504089/88 705283845b0d2f71/0f202e41 000102037039714515750d33/201d381f092e0f11 00077089/522e1f8a20
201e27262322/89 838454151a4c200c1e23221d212726/030f522e1f 0f030102392e15634447001f1e/293845200d7075 6a170f1963766f/5452201f 000102033911170d3319152e2f0947442627201f/ 074889/06520f38 343589/88 076a7626271f1e20/0d0f29382f2e 00020370454f0d3933192c2e2d156375261f202322/0f71 0007504089/060f71702f29 5283845479036a2627201e/0f380d70297115012f 0f5c707971292c2e0e032a0d6a804b2d8c2b3348634c/521109154620
0f000102700d335283845329711563/38048a7d4520 0039787989/1f2e20 00161a5d454f153826201e27/7d0d29 030102703945802d2c512b7129092322270c7566/112e5283 393489/88 5283845b79037b7c802d2c2e4e302f2b38493d4463664c1f2021/0f0d7129 52838454443d65002c2e15495d1f/0f417d712b3863 7b7c343589/0f70 003f261f202789/88 0f5c5b0001032a0d7052842c2e71291f20/1118517d46 4c4089/88 04795b3f651a5d/0f52010620
6a0339332c20528384531563/29713801000f0c47806b 111871545283842979397b7c69152b2a0d33485324251f1d1e26/6b00702f800c20 1a454f548384/88 1a5d453a332c2e2f4b25262322271f201e1d21/000f7047 0f0102037039330d5284832971152e1f0c/0026206b 63767789/522e0006206b 528384546315332c2e2f26201f2322/0f0d45002971756b 11180f71297052838454792a0d33802d153853201f1e212627/012f564766 343589/88 07762623221f1e20/000f1552296b2f 261f201e232289/ 117154528384292c2e302d4e092a0d50407970443d/56804100
005089/88 0f18110001027939706954528384685d15565a75201e1d26/29032e 0f00010203700d332e2f1929711552838453261f201e2322/ 007984831a160f1719/632e20471d6b 001a1715838444363f261f1e200c2322/0f476b520363 0f00010206181139702e1f686f6a792d2c304e153375664923221d21/52296b0d80 003889/88 0001067011185b0d332c2e2d712909262322271f200c/0f526325 002627651e20232289/88 89/6b 002627241f1e20232289/ 18115452840001712970802d2c2e302f2b2a0d78791f/0f20475861
291503000d332e53261f2075/0f5238584f45 00170f79191a6540/712909387c20 0f171170792f5b1566770001032c2b802d/29387c2071 483f89/88 0070784889/0345201f 89/ 393589/88 00195475667689/5229152e20 0f0d33000103452e528384297115752620/63386f70 181100012a0d2c2e2f2b2d304e447129841f/0f0941613820 0039343589/88 0f1811000104037115454f7677657b7c392023222726210c/52092e1f
003989/88 00676589/0f20 50400089/88 040318111a16175b795452848315302f6563395d/38702920 000102031118396375664819/1d413870208029 3f8b6589/1f20 2c2e2d2b156343364c/0f4729710d708a20036a19 0004037b7c0f79494766754667/80293869208a 0003391983845475/2e1f0f6a702971722a0d 03020e0f18110d332c2e2d2f4971293e615244756653/8a2025 0f0211195465756679/2f384570202b6a 34350089/0f20
3435000789/88 0f00071a706a717677492923221e202726/80522e1f 5c11180001027170520d2984832b15200c/03802e3863 000f1323222627/2e38290315 0370833f0f6a5215/010d582e1f202c2f29 0370110f45510d3371290941614c522623222720/ 00788b89/0671292e 003f657789/7152290f032b 0f00010203703915632719792322/8026204529715875 000f76/032e1f522c292b 0f0052037029710d332c15/7545584f8a201d21 0f111800171a454f514e3a3871157765443d23221e262720/80612e1f
150001021745512e443d65262322/2b63387c 343589/0f5220 2e260f27201f/523815292f1a 010203040618110f3315292a271d200c6339171a712c2e30491e21/7a 00387765504089/0f157c 1966583f6589/88 11180f000152548471702c2e2d4e303348492a156144474c63/8a201f384506 525400045b17791a565d754c7866/2e1f207c 002e4344793f26271f20/03702c2f292b381a 0028397976771e232227/0f522e474420 0f003854/20521d21 111800010206037939695483845d2d2e4e446375661f262120/0f52290d71
394889/88 111800020d041a796933483e5347446563751f1d212026/010f09150c 7b7c343589/520f 0039262322271e201d210c0748766465776a/150f3829 070039201f0c2789/06030f292f 03700f/79192c2e2d715275262322271f201d21 0f0300017039712952542d2c302f80380d2a363f3349483e616320/1118150c1f2e 71297c790001062a0f802d/5215705d 001a2b5448701938754c/152e202425 7039170f45513a2c2e7129242526271f201d/0001035215 0f0001020370390d1952838453542971631f0c/1520 767779392623222789/152b1f1d20
00036a7415384878/45751f20240f522e834f 262322271e201d21/52450f4f 00060724232227261f2025/520f157929382f 3435/88 003926271e20747677642322480c06/2e1f 0f11700001522e71291f20/2b 0f006a385040740717/1f7063 0470170f191a134c8384662426232227201e/ 0039332c2e2d2f152b4644261f1e/0f7019382971637a 0001027007834878/2e388a201d 0f0001022e154826271f1e203874362322/0363 000102060717706a33392d2e4e674447482322271e210c/71292b4f20
00010203332c2e2f1558631f/0f1920707a29712646 0038262389/5215 003f651f0c2027232289/0f29 007018111a1617192e15382627201f656477/4f09 00073934357b7c89/0f52 0f117b7c2c2e71291f20/5203 0f1118000102030d70332c2e192971158384535426201e2322/471f 00170f7665776489/ 11180370392a0d3329712c2f156375795b5d/450c8a00382e1f2001 703911170e2c2e2d2f4b15712952633d/092b8a20 0001020370392f2971152b54754c/458a1f0f2046 0f171511793f76584c/0347200c1d
0717363f1a2c4f3a67433d8b/71290f010347 040307177938494c/0f262070 00076a386563/0f7d8a2066454f52754c 00030418111617332e2d2f292a52845407020d302b/090f4520 073f7765644889/0120 00343589/88 77766564000789/0f52201e8a 074889/88 5040000738/0f7d7c584f012063452b 03047039171a533852443d363f/ 000370396a450d332f4b154c/0f208a7d41381f2e 000789/88
""".strip().split("\n")
# sixty day pillars, each with twelve double hours
HOUR = """
01100f5220/616d 010270550f2000/ 000108100f705529207a/2f8026 020f712952832c20/7a70 100f55528315/7a2c71707d01026d 0102100f295283/032c207a70 /88 000108556c100f2c2029/7a70 02100f7055528315/00010608 556c082c807138152952/000106037a70 70556c0f197120/7a7d 020f712952832c2001/7a7055
0102100f705552831500/2f8026 000108100f70552920/616d 100f2c29528320/0102 7a70556c100f295220010200/ /2c2e 0102100f555283152c8071/7a70 020f2952832055/7a2c71707d00010603 /88 010270550f7a6c/032c20 0102100f55528315/7a702c 01100f1571292c20/2f80267a70 00010252100f29202c7a706c55/
7a70556c0008/0102 2c8071381529527a70556c0f19/00010608 020f712952832001/7a7d2c2e 7a70550f2c715220/ 100f5220/7a7000010603 556c100f295220/7a7000010603 0102100f7055528315/ 2c80711529525600010206100f70/ /88 0102100f55528315292000/7a702c2e 100f70555283153800/01026d 0102100f5552831500/7a702c03
3800010608/7a702c2e 6c550f1971200001020610/7a702c 100f1571292c20556c/000106037a70 2c80713815295202100f/000106037a70 00010206100f20/7a70 020f712952832c2001107a706c55/ 0102100f70555283157a/2c2e 0102100f70555283152c292000/ 292c20000608/0102 /88 0102100f555283156c/7a2c71707d 0102100f55528315006c/7a702c2e
02100f55528315/7a2c71707d00010603 08556c100f20/7a702c2e00010603 020f712952832c2038000106086c/7a70 556c/7a7000010608 0102100f55528315/2f80267a70 7a70556c100f295280713815/032c20 2c2070550f/7a7d0102 010270290f2c207a6c55/ 0102100f70555283157a6c/2c2e 02100f7055528315/00010608 /88 2c8071152952566c55100f19/000106037a70
00010870556c100f2c207a/ 0102100f555283152c8071/7a70 7a70556c000108/2f8026 2920550f/7a702c2e 382c7a6c55700f197120/00010608 020f71295283206c55/7a702c03 7a70556c100f29522001/2c2e 000108100f705529202c80713815/ 02550f20/000106037a70 02100f55528315/000106037a70 01100f5220/7a7055 /88
/88 010270550f2000/ 100f70555283157a6c/0102 02100f2c29555283207a706c/00010608 00010206100f20/7a2c71707d 020f712952832001/7a702c2e 08100f55292038/000106037a70 02100f55528315/000106037a70 7a70556c100f295201/032c20 020f712952832c207a7055/ 0102100f55528315/2f80267a70 2c29206c0f1971/7a7055
0f712952832c20/7a7d0102 /88 010270550f20/2c2e 02100f7055528315/00010608 292c206c550f1971/000106037a70 2c80711529525608100f55/000106037a70 0102100f5552831500/7a2c71707d 6c550f197120/616d7a702c2e 0102100f705552831538007a6c/2f8026 2920556c100f/7a702c 100f1571292c2000/01026d 0102100f528315807138/7a7055032c20
0102100f7055528315/2c2e 010f2c093829207a6c5570/ /88 08556c100f2c20/000106037a70 0102100f7055528315007a6c/ 010270550f2000/ 0102100f70555283157a/2f8026 2c292000010206100f707a/ 0f29528320/7a2c71707d01026d 0102100f2955528320/7a702c2e 3800010608/7a70552c2e 556c100f295220/7a702c
556c100f2952200238/000106037a70 02100f55528315/7a702c00010603 100f1571292c207a6c7055/00010608 /88 0102100f705552831500/2f8026 010270550f/032c20 100f52202c/01026d 000106082c386c550f197120/7a70 7a70556c0f197120/000106082c2e 2c80711529525601100f7a7055/416d 6c550f197120/7a7000010603 020f71295283206c55/7a702c2e00010603
0102100f2955528320/7a2c71707d 000108556c100f20/7a702c2e 0102100f70555283157a00/2f8026 0102100f555283152920/7a702c /88 807138152952000170100f/032c20 0102100f7055528315/7a7d2c2e 000108556c100f2c2029/7a70 100f52207a706c55/00010608 7a70556c/00010608 01100f71522c2920/616d 020f712952832c2000010608/
00010870556c100f2c207a/2f8026 000108100f705529202c8071157a/ 100f55528315/01027a2c71707d 0102100f70555283157a/ 38000106087a6c55700f197120/2c2e /88 020f712952832c20106c55/000106037a70 02100f555283152c807138/000106037a70 7a70556c/00010608032c20 /7a7055 100f5220/2f802600010608 000108100f552920/7a70
7a70556c0008/0102 0102100f705552831500/ 020f71295283207a706c55/000106082c2e 2c8071152952566c55100f19/7a70 02100f55528315/7a7000010603 556c100f295220/7a702c2e00010603 /88 /2c2e7a70 0102100f7055528315/2f8026 2c292000010870556c100f7a/ 6c55700f197120/7a7d01026d 0270550f/00010608032c20
02100f7055528315/000106082c2e 7a706c550f19712001/616d 100f52/00010608032c20 082c38/7a7000010603 /2c2e 0102100f70555283152c80717a/ 0102100f55528315/2f80267a2c71707d /88 380006082c/01027a7055 0102100f705552831500/ 01100f15712920/7a702c2e 7a70556c0001082c807138152952/
100f52206c55/000106037a70 2c80713815295270556c100f/00010608 020f712952832c200110/7a7d 292c207a70556c000108/ 0102100f70555283157a6c/2f8026 297a70556c100f/032c20 100f71522c2920/0102 2c80711529525600010870556c10/ /88 /000106087a702c2e 38082c/000106037a70 4b0f20/7a702c00010603
00010870556c100f2c2038/ 00010206100f20/7a702c 02100f7055528315/2f802600010608 2c2920/616d 0006100f7020/7a7d01026d 7a706c550f297102/032c20 01100f52207a70556c/2c2e 0102100f705552831500/ 020f20/7a705500010603 /88 00014b0f20/7a2c71707d 0102100f555283156c/7a70
0102100f55528315/7a2c71707d2f8026 000108556c100f20/7a702c2e 100f5283153800/01027a7055 02100f55528315/000106087a702c /88 020f712952832c2000010608/ 556c08/000106037a70 08556c100f2c20/7a7000010603 01100f527a70556c/032c20 2c38020f71295283/00010608 0102100f705552831500/2f8026 2c29207a706c55100f1971/
0f712952832c207a7055/0102 2c8071152952567a6c55700f19/ 0102100f5552831500/7a2c71707d 02100f55528315/000106087a702c2e 38082c6c550f197120/000106037a70 /88 7a70556c000108/ 0102100f7055528315002c807138/ 0102100f7055528315/2f80267a7d 556c100f2952202c/7a70 100f5220/6d010200 0001060838/416d032c20
0102100f55528315/2f80267a2c71707d 2920000108556c100f/7a702c2e 380006082c7a706c550f297120/0102 02100f2c29555283207a706c/00010608 01100f157129207a70556c/416d2c2e 020f712952832c2000010608/ 70556c08/7a7d00010603 6c550f19712008/000106037a70 7a70556c100f29520102/032c20 020f712952832c2000010608/ /88 2c29207a706c55100f1971/
0f712952832c207a7055/0102 0102100f70555283152c207a/ 000108556c100f20/2c2e7a70 550f715220/7a702c2e00010608 382c/00010608 08100f552920/000106037a70 01100f1571292c20007a70556c/ 00010206700f202c807138152952/ 00014b0f2c2002/2f8026 0102100f55528315/7a70 100f5220/01026d /88
/88 0001060838/2c2e 02100f7055528315/00010608032c20 2c80711529525608556c100f/000106037a70 000108100f552920/7a2c71707d 556c/000106087a702c2e 0102100f555283153800/2f80267a70 00014b0f20/7a702c 100f1571292c207a706c55/0102 0102100f2c29528320/7a7055 0102100f70555283156c/7a7d2c2e 010270550f207a6c/
70556c100f29522002/7a7d00010603 /88 02100f2c29528320/00010608 0102100f705552831500/ 0102100f7055528315/2f8026 80711529525600010870556c100f/032c20 100f7055528315/010200 6c550f197120/7a70 38000106087a70556c0f197120/2c2e /7a7055 100f1571292c20/000106037a70 02100f555283152c807138/000106037a70
0102100f70555283157a/ 010270550f202c8071381529527a/ /88 2c2920020f7100010608/ 0070100f292c20/0102 00014b0f/032c20 01100f712920/7a702c2e 2c80711529525670556c100f/00010608 020f29528320/000106087a2c71707d 556c08/7a702c2e00010603 38000106082c7a70556c0f197120/ 020f712952832c2001/
010270550f203800/2f8026 0102100f705552831500/ 100f1571292c207a6c7055/0102 /88 00014b0f20/2c2e 0102100f55528315/7a70 020f712952832c2010/7a705500010603 082c38/7a705500010603 7a70556c/00010608032c20 2c8071152952567a70550f/416d 0102100f70555283157a/2f8026 000108100f552920/7a702c2e
556c0008/7a2c71707d0102 2c20556c0f1971/7a70 0102100f70555283153800/2c2e 00014b0f20/7a702c /88 556c100f2952202c80713815/000106037a70 0102100f70555283157a/ 6c550f197120/7a70 0102100f70555283157a6c/2f8026 2c292070556c100f/00010608 0006100f7020/616d0102 80711529525600010870556c100f/032c20
7a70550f715220/2c2e 2c8071152952567a706c55100f19/ 4b0f2c20/00010608 02100f55528315/7a702c2e00010603 38000106082c7a6c55700f197120/ /88 010270550f20/2c2e 0102100f70555283152c292000/ 292c20/7a7d01026d 00010870556c100f2c20/ 100f5220/000106082c2e 556c000108/7a70
100f52206c55/000106037a70 4b0f2c20/000106037a70 020f712952832c206c55/7a70 556c0001082c807115295256/7a70 0102100f705552831500/2f8026 297a70556c100f/032c20 /88 0102550f20/7a702c 0102100f705552831500/2c2e 2c8071381529527a70550f/00010608 6c550f197120/000106037a70 7a6c70550f197120/00010608
010270550f20/ 6c550f197120/616d7a70 0102100f70555283157a/2f8026 2c2920010670100f00/ /0102 0102100f70555283158071/032c20 010270550f207a/2c2e /88 38082c6c550f197120/000106037a70 02100f7055528315/00010608 01100f1571292c2000/7a70 2c807138152952010f6c55/7a70
01100f1571292c207a7055/2f8026 70556c100f2c20/00010608 0f712952832c20/7a7d01026d 02100f2c2955528320/00010608 010670100f7152207a6c55/2c2e 000106082c38020f71295283/ 02100f528315/7a705500010603 2c80711529525608556c100f/000106037a70 /88 020f712952832001/7a702c2e 0102100f70555283153800/2f8026 0102100f555283152920/7a702c
380006082c0f71295283/01027a70 2000010206100f/7a702c 100f1571292c20/000106082f8026 2c807138152952/00010608 02100f7020/7a7d00010603 08100f552920/000106037a70 0001086c100f2c20/7a7055 000170100f292c20/ 0102100f7055528315/2f8026 /88 100f55528315/7a2c71707d01026d 0102100f555283156c/7a702c2e03
0102100f7055528315/2c2e7a 556c0f19712001/7a702c2e 6c550f297120/000106037a70 020f712952832c2070556c10/00010608 01100f1571292c2000/416d 0270290f2c207a/00010608 0102100f70555283157a/2f8026 2c2920010f/ 100f7055528315/0102 0102100f705552831500/ /88 7a70556c100f2952202c807115/
02550f20/000106037a70 2c80711529525602100f55/000106037a70 /000106087a70 020f712952832c2000010870556c/ 02100f705552831538/2f802600010608 2900010870556c100f7a/032c20 100f1571292c20/01026d 2c80713815295200010206100f20/7a70 0102100f70555283157a/2c2e 0102100f55528315/7a70 100f5220/000106037a70 /88
/88 000106082c38/ 0102100f70555283157a00/2f8026 020f712952832c207a706c5510/ 0006100f20/7a2c71707d01026d 100f712920/7a702c2e0001060803 010f09382920/7a702c2e 0102550f20/7a702c 100f1571292c207a706c55/00010608 556c082c807138152952/000106037a70 0102100f70555283156c/7a7d 020f712952832c207a6c7055/
00010870556c100f2c20/2f80267a7d /88 0f712952832c2010/0102 0102100f70555283157a/ /2c2e 2c8071152952566c550f/7a70 02100f7055528315/00010608 6c550f197120/616d7a702c2e00010603 0270550f/00010608032c20 /7a702c 0102100f55528315/2f80267a70 0102100f7055528315002c807138/
100f70555283157a/0102 2c8071381529520102100f7a6c55/ /88 7a706c550f19712000010608/ 02100f528315/7a705500010603 02100f55528315/000106037a70 020f712952832c2001/ 2c80711529525602100f/00010608 0102100f55528315/616d2f80267a2c71707d 000108556c100f20/7a702c2e 380006082c/01026d 0102550f20/7a702c03
3800010608/2c2e 0102100f5552831500/7a702c 100f1571292c20/000106037a70 /88 0102100f705552831500/7a7d 0102100f528315/7a7055 0102100f70555283157a/2f8026 0102100f2c2952832000/ /01026d00 000108100f7055292002/416d 6c550f1920/7a2c71707d 556c000108/7a702c2e
6c550f19200210/7a2c71707d00010603 08556c100f2c20/7a7000010603 0102100f55528315/7a70 0102100f555283152920/7a702c /88 6c100f2952/7a7055032c20 100f70555283157a/0102 010270290f2c207a6c55/ 000108100f705529207a6c/2c2e 70100f2c715220/00010608 02100f20/616d000106037a70 2c8071152952566c55100f19/000106037a70
00010870556c100f2c207a/ 2c8071152952566c550f19/7a70 0102100f7055528315/2f8026 0102100f70555283152c29207a/ 380006082c7a6c55700f197120/01026d /88 01100f157129207a70556c/2c2e 0102100f705552831500/ 0270550f20/7a7d00010603 020f712952832c20/00010608 100f5220/00010608 000106082c38/7a70416d
01100f5220/616d2f80267a70 00010870556c100f2c20/ 7a6c70550f197120/0102 2c8071152952560102100f7a706c/ 0102100f55528315/7a2c71707d 020f7129528320/7a702c2e /88 08556c100f2c20/7a7000010603 0102100f70555283157a29/032c20 020f712952832c20017a7055/ 0102100f555283156c/2f80267a70 7a6c70550f1971202c29/00010608
100f7055528315/0102 2c20/616d 010270550f20/2c2e 2c38/00010608 6c550f197120292c/000106037a70 02100f555283152c8071/000106037a70 010270550f207a/ /88 0102100f705552831538007a6c/2f8026 0102100f70555283152c29207a/ 100f1571292c2000/01026d 8071381529527a706c550f/032c20
01100f15712920027a7055/2c2e 2c80713815295202100f/00010608 /000106037a70 08556c100f2c20/000106037a70 01100f5220006c/7a7055 70556c100f2c20/00010608 0102100f7055528315/2f8026 2c29207a70556c0f197100010206/ /88 0102100f295552832000/7a702c2e 0102100f70555283153800/2c2e 0102550f20/7a702c
556c100f29522002/7a7000010603 02100f20/7a702c00010603 100f1571292c207a6c7055/00010608 010270550f202c807138152952/ 0102100f705552831500/2f80267a7d 00010870556c100f7a/032c20 2c20100f52/01026d 0102100f5552831500/7a70 7a70556c0f197120/2c2e /88 02100f55528315/7a2c71707d00010603 02100f555283156c/000106037a70
0102100f55528315/7a2c71707d 0102290f20/7a702c2e 000108100f705529207a38/2f8026 020f7129528320/000106087a702c 100f1571292c20/7a7001026d 807138152952000170100f/032c20 550f715220/7a702c2e 010270290f2c207a6c55/ 02100f7055528315/00010608 02100f55528315/000106037a70 /88 020f712952832c20/
010270550f20/2f8026 0102100f70555283152c29207a6c/ 100f2920/7a2c71707d01026d 556c100f2952200102/7a702c2e 387a6c55700f197120/000106082c2e 010f2c80093829206c55/7a70616d 100f1571292c2002/000106037a70 2c80713815295202100f/000106037a70 02100f7055528315/00010608032c20 0102100f7055528315/ 0102100f70555283157a/2f8026 /88
/88 000106082c38/ 02100f7055528315/000106082c2e 2c8071152952560102100f7a706c/ 02100f20292c/7a7000010603 7a70556c100f295220/00010608 020f712952832c20013800/416d 0102100f55528315/7a702c 0102100f70555283157a/2f8026 00010870556c100f2c207a/ 100f70555283157a6c/01026d 010270550f7a6c/032c20
/7a7d2c2e /88 /000106037a70 02100f55528315/000106037a70 0102100f2c29528320/7a70 2c807115295256020f7a706c55/ 02100f70555283157a/2f802600010608 6c550f197120/7a702c2e 7a6c70550f197120103800/0102 00010870556c100f2c2002/ 01100f15712920/7a702c2e 7a70556c0001082c807138152952/
100f1571292c206c55/000106037a70 2c80713815295208556c100f/000106037a70 /88 292c200102100f7a7055/ 0102100f7055528315/2f8026 0106100f7152/7a70032c20 2c200f71295283/0102 0270550f202c807115295256/00010608 000108100f552920/7a2c71707d /000106087a702c2e 38082c/000106037a70 0f2c09382920/7a7000010603
000170100f292c802038/ 0102100f5552831500/7a70 0102100f70555283157a6c/2c2e /88 100f7055528315/7a7d01026d 0102100f7055528315/032c20 01100f52207a70556c/2c2e 000108100f70552920/ 70556c100f2c20/00010608 020f712952832c20/00010608 6c550f197120/7a70 6c550f197120/7a70
020f71295283200110/616d2c2e 0102100f705552831500/ /000106037a70 02550f202c807115295256/000106037a70 0102100f5552831500/7a2c71707d 02550f20/000106087a702c2e /88 2c2920556c0f1971/7a70 100f7055528315/0102 2c8071381529520102100f7a7055/ 6c55700f197120/2c2e7a7d 7a70556c100f295220/00010608
7a70556c100f29522002/00010608 /000106037a70 100f5220/00010608 000108100f7055292002/ 0102100f7055528315/2f8026 0102100f7055528315008071/032c20 550f522010/7a2c71707d0102 /88 38000106087a70556c0f197120/2c2e 0001100f298020/7a702c 100f1571292c20/7a7000010603 2c8071381529526c550f/000106037a70
01100f1571292c20/7a7055 2c80713815295270556c100f7a/00010608 000108100f705529207a/2f8026 020f712952832c207a7055/ 100f52207a6c5570/01026d 0106100f71526c/7a70032c20 0102100f55528315/7a702c2e 010270550f202c80711529525600/ /88 556c08/7a702c2e00010603 0102100f705552831538007a/ 0102100f55528315/7a702c
38000106082c/2f80267a70 000108100f552920/7a702c 100f1571292c20/000106086d 7a70556c100f29522001022c8071/ 00010206100f20/7a702c2e 010f2c80093829206c55/7a70 020f712952832c2010/000106037a70 02100f55528315/000106037a70 70556c100f/00010608032c20 /88 0102100f55528315/2f80267a2c71707d 0102100f55528315292000/7a702c2e
100f5552831500/7a2c71707d0102 20556c0f1971/7a702c2e 020f712952832038000106087a70/2c2e /000106087a70 100f1571292c20/416d7a7000010603 2c807138152952556c100f/000106037a70 020f712952832c20017055/7a7d 7a6c55700f197120/2c2e 0102100f7055528315/2f8026 0102100f7055528315002c2920/ /88 80711529525600010870556c100f/032c20
0f715220/7a70552c2e 0102100f5283152c8071/7a7055 02100f2c29528320/000106037a70 02100f2c29528320/7a7000010603 382c/7a7000010608 7a6c70550f19712002/616d00010608 0102100f70555283157a/2f8026 2c292000010206100f70/ 100f7055528315/7a7d01026d 0102100f705552831500/ 010670100f2c71522000/ /88
/88 08556c100f2c20/7a7000010603 0102100f55528315/7a70 7a70556c0001082c807115295256/ 0102100f5552831500/2f80267a2c71707d 100f715229/00010608032c20 380006082c0f71295283/0102416d 0102550f20/7a702c 000108100f705529207a/2c2e 2c80713815295202100f7a7055/00010608 100f292c206c55/000106037a70 0f2c093829206c55/000106037a70
010270550f20/7a7d /88 0102100f70555283157a/2f8026 0102100f70555283152c292000/ 100f2c29528320/0102 020f712952837a706c55/032c20 0270550f20/000106082c2e 000108100f5529206c/616d7a702c2e 38082c6c550f197120/000106037a70 020f7129528320/7a702c00010608 01100f1571292c2000/7a70 0102100f555283152c807138/7a70
0102100f55528315/2f80267a70 0001086c100f2c20/7a7055 /88 02100f2c29528320/00010608 0102100f70555283157a/2c2e 000106082c38020f71295283/7a70 556c08/000106037a70 2c80711529525670556c100f/00010608 556c100f295220/7a2c71707d03 020f71295283200100/7a702c2e 0102100f555283153800/2f80267a70 2c2920/7a70
0f712952832c2038000608/01027a7055 0102100f5552831500/7a702c 01100f1571292c20007a6c7055/ /88 02100f7055528315/7a7d00010603 02100f55528315/000106037a70 00010870556c100f2c20/ 000106082c38/ 02100f7055528315/2f802600010608 010270550f202c29/416d 6c550f197120/7a700102 6c550f297120/7a702c2e03
020f7129528320/7a70552c2e 010f2c09382920/7a7055 02100f7055528315/00010608 02100f55528315/7a702c00010603 /88 70556c100f2c20/00010608 0102100f7055528315/2f80267a7d 6c550f197120/7a70 100f52206c55/01027a70 2c38/00010608 00010206100f7020/616d 2c8071152952567a70556c100f/
556c100f29522002/000106037a70 2c8071152952566c100f19/7a705500010603 02100f55528315/7a2c71707d00010608 0102100f5552831500/7a702c2e 38000106082c/2f8026 /88 100f1571292c20/01026d 0102100f555283152c80713800/7a70 556c0f197120/7a702c2e 7a706c550f297120/ 100f5220/00010608 020f712952832c2010/416d000106037a70
""".strip().split("\n")
# sixty day pillars, each with twelve lunar months: good spirits/evil spirits
SPIRIT = """
010203040506/0708090a0b 1601025d60/393b28292a11090a 0102415e5f1a1b69/090a471457 5001431b/5a5b1248 012f4d31/54550708323312 241601304d/3c28292a4e1235361423 0103404142445906/46 50013f5d402760/6a3a5a5b22 013f408c2e4c/0708641457 160170182543261c/28292a48 01701718254a31/1f20216162 500170661825670c/5a5b1013141523
010c0d/0e0f101112131415 0103041a1b4a/123435360b6d 011b05/6a125c 490141425e5f2f4b/32336314 01586938/0e0f3c63 01/54553b63342b 01020d/4e14 490102414430/466d 010259/393a0e0f5c 240117182c2d2e274b/61623464147b 0118582c26/674c38 4f4901182c1c/1f2021222b
16011718191a1b1c1d1e/1f20212223 011819681b4c1d061e/3d1014 5001185d19515203042f0c1d601e/323315 4f01024a1d1e/396b3c130b57 16010241435e5f051d1e/641448 0102681d311e/3d 50015152694d1d1e/54553b23 014d1d061e/6b4e4714 2416015d4142441d601e/61624635367b 013f376768301d1e/6a3a3d1257 50013f375152432d2e591d1e/121448 011637261b271d311e/6b1112
24011825261b271d1e/28292a2b 011718252f591d0d1e/1f20213233 4f490118251c1d1e/3c5a5b106d 01025803044c1d1e/07085c 01020c1d4b1e/6a28292a353615220b 010241425e5f4a1d381e/64 4901051d1e/5a5b2b1288 011d0d1e/54550708616212 0167691d1e/28292a4e126d 01584041441d1e/465c 4901401b1d4b1e/393a5b11 01402d2e1a1b311d381e/0708
012c2d2e2f3031/3233343536 012c26/3c23 012c2706/1f20213b710b787a 01183f5d5960/0e0f10127f 0117183f03041c/123457 01183f434c/39127148 4f0102415e5f0c31/6162636415 0102671b4a/0e0f6323 01021b054d06/5455637134220b 015d4d60/4e1113 014142441a69/4657 0143/6a3a0e0f7148
3738/393a3b3c3d123e 493751522d2e69/121364223e2b 58372668300d/6b123e 171819/1f20213e6d788075 181927/3d103e5c 4f49181951520304594b/61620b3e73 6667681c38/6a6b3e 41425e5f4c/8b2b 580c0d/3d11153e 4951521a1b4a/54553e6d 681b05/6b4e3e5c 41442f4b/32334635360b3e
3f404142434445/464748 503f4005311e/6a3a5a5b 173f402d2e45/07086423 162526690645/28292a 5d25306045/1f20213b616213 50256745/5a5b102257 4303042745/07080b48 16593145/3928292a113536 17415e5f1a1b1c45/23 4f501b4c0645/5a5b12 682f0c4d6045/5455070832331215 24164a4d45/3c28292a4e1257
494a4b4c4d/4e 5841440c38/4615 /393a0e2b 242c2d2e050d/6162343536647b 492c2667/6d 172c69/1f20215c 02304b/0e0f101112 025803041a1b38/1234130b 4f49021b27/6a3b12472b 41425e5f2f590d/32336322 1c/0e0f3c636d 174c/545563345c
4f5051524c4d5345/54555657 431c4d45/6b4e5648 24164142444a533145/61624622567b 3767680c5345/6a3a3b3d12155623 503751522d2e530645/1256 5d37261b05536045/6b111256 16171819/1f20135657 181943681b695345/3d105648 501819515203042f30533145/323356 025345/396b3c0b5623 1602415e5f27530645/3536136456 025d6859536045/3d56
58595345/5a5b12565c 27534b45/5455070861621256 674c533845/28292a4e121356 4041441c5345/46562b 401b4a530d45/393a5a5b1156 402d2e1a1b0c5345/6b111256 24185825261b5345/28292a353622565c 1718252f0553534b45/1f20213b323356 1825533845/3c5a5b1056 020304695345/0708562b 0230530d45/6a28292a0b56 0241425e5f5345/4764566d
5d415e5f60/616263640b65 16666730/0e0f6357 431b594d/54556334353648 501b274d31/4e11 4142441a1b4c/4623 24161b1c06/6a3a0e0f13 025d2c2d2e2f4a60/32338934 50022c260c/3c1557 022c43/1f2021487c 16180531/0e0f10126f 17180304/126f342223 50186906/393b126f
0266676869/6a6b6c0a3e6d 0241425e5f1b/6c0a0b3e5c 021b27/3d116c0a3e 4951521a1b3038/5455223e 681b59/6b4e3e2b 5841442f270d/3233463e 374c/393a3c3d3e6d 493751522d2e1c/12643e5c 3726684a4b/6b12133e 241618190c38/1f20213b3536103e 1819/3d103e2b 4f4918581951520304050d/61623e
1602171803041b05061e/07086e 02185d1b601e/393b28292a116e 500218415e5f1a1b691e/146e57 4f431b1e/5a5b0981120b6e48 162f4d311e/5455070832330981126e 304d1e/3c28292a4e0981123536146e23 503f4041424459061e/466e 3f5d4027601e/6a3a5a5b226e 24163f402d2e4c1e/070864146e57 2543261c1e/28292a6e48 50254a311e/1f202161626e 25671b0c1e/5a5b101314156e23
24181b0c0d/0e0f1011126f131415 171803041b4a/126f3435366d 4f49181b05/6a126f5c 41425e5f2f4b/32336314 586938/0e0f3c0b /54553b63342b 49020d/4e14 02414430/466d 0259/393a0e0f5c 2c2d2e274b/61623464147b 49582c26/671b4c38 2c1b1c/1f2021222b
70191a1c1d/1f20212223 7019684c1d06/3d1014 705d19515203042f0c1d60/3233150b 02184a1d/396b3c1357 02171841435e5f051d/641448 0218681d31/3d 4f5152694d1d/54553b 4d1d06/6b4e14 5d4142441d60/61624635360b7b 3f376768301d/6a3a3d124757 3f375152432d2e591d/121448 3f37264b1d31/6b1112
0125261b271d/28292a2b 4901252f591d0d/1f2021323378 01251c1d/3c5a5b106d 010217185803044c1d/0708475c 0102180c1d4b/6a28292a35361522 4f4901021841425e5f4a1d38/640b 01051d/5a5b12132b 011d0d/5455070861621279 0167691d/28292a4e126d 4924584041441b1d/465c 01401b1d4b/393a3b5a5b11 01402d2e1a1b301d38/07080b
012c2d2e2f3031/3233343536 50012c26/3c23 01172c2706/1f20213b7c 16013f585960/0e0f1012 013f03041c/123457 50013f434c/391248 0102415e5f0c31/61626364150b65 16010266674a/0e0f6323 0102171b054d06/5455633422 4f50015d1b4d60/4e1113 014142441a1b69/4657 241601431b/6a3a0e0f48
49013738/393a3b3c3d123e 013751522d2e69/121364223e2b 0158372668300d/6b123e 240119/1f20213e6d 49011927/3d103e5c 01171951520304594b/61623e 0167681c38/6a6b3e 0141425e5f1b4c/0b3e2b 4f4901581b0c0d/3d11153e 0151521a1b4a/54553e6d 01681b05/6b4e3e5c 011741442f4b/32334635363e
4f50013f404142434445/4648 013f40053145/6a3a5a5b 2416013f402d2e45/0708476423 012526690645/28292a 50015d25306045/1f20213b616213 0125671b45/5a5b102257 162417184303041b2745/070848 01181b593145/3928292a113536 500118415e5f1a1b1c45/23 011b4c0645/5a5b120b 16015d2f0c4d6045/5455070832331215 014a4d45/3c28292a4e1257
014a4b/4e6e 015841440c38/46156e 01/393a0e0f6e2b 012c2d2e050d/6162343536646e7b 012c26671b/6e6d 012c1b69/1f20216e5c 240102181b304b/0e0f1011126e 010217185803041a1b38/1234136e 0102181b27/6a3b126e2b 0141425e5f2f590d/323363226e 011c/0e0f3c630b6e6d 014c/545563346e5c
51524c4d5345/54550b5657 16431c4d5345/6b4e5648 4142444a533145/61624622567d 503767681b0c5345/6a3a3b3d126f155623 3751522d2e1b530645/126f56 24165d37261b05536045/6b11126f56 191a1b5345/1f20215657 501943681b695345/3d105648 19515203042f30533145/323356 1602185345/396b3c5623 021718415e5f27530645/3536136456 5002185d6804536045/3d56
0158595345/5a5b12565c 27534b45/545507086162120b5648 66671b4c533845/28292a4e121356 494041441b1c5345/46562b 401b4a530d45/393a5a5b1156 402d2e1a1b0c5345/070815566d 5825261b5345/28292a353622565c 49252f05534b45/1f20213b323356 25533845/3c5a5b1056 240217180304695345/0708562b 021830530d45/6a28292a56 4f49021841425e5f5345/64566d
1601185d415e5f60/61626364 18671b30/0e0f6357 5018431b594d/54556334353648 4f1b274d31/4e11710b 164142441a1b4c/467123 1c06/6a3a0e0f1347 50025d2c2d2e2f4a60/32338934 022c260c/3c1557 2416022c43/1f202148 0531/0e0f1012 500304/12342223 6906/393b12
24021867681b69/6a6b3e6d 02171841425e5f1b/3e5c 4f4902181b4b/3d113e 51521a1b3038/54556c81223e 6859/6b4e6c810b3e2b 5841442f270d/3233466c813e 49374c/393a3c3d126f473e6d 3751522d2e1c/126f643e5c 3726684a4b/6b126f133e 190c38/1f20213b3536153e 4919/3d103e2b 581951524404050d/61623e
0203040506/0708 025d60/393b28292a11 02415e5f1a69/140b57 18431b/5a5b1248 17182f4d31/54550708323312 18304d/3c28292a4e1235361423 4f3f404142445906/46 3f5d402760/6a3a5a5b22 3f402d2e4c/070864140b57 2543261c/28292a4882 254a31/1f4e21616278 25670c/5a5b101314152386
1b0c0d/0e0f101112131415 4903041a1b4a/123435366d 1b05/6a125c 171841425e5f2f4b/32336314 18586938/0e0f3c63 4f4918/54553b63340b2b 020d/4e14 02414430/466d 0259/393a0e0f5c 49503f3767681b301d1e/6a3a3d1257 582c26/671b4c38 2c1b1c/1f2021220b2b
191a1b1c1d1e/1f20212223 5019681b4c1d061e/3d1014 175d19515203042f0c1d601e/323315 16024a1d1e/396b3c1357 0241435e5f051d1e/641448 5002681d311e/3d 515269/1d1e 164d1d061e/6b4e14 175d4142441d601e/61624635367d 4f503f3767681b301d1e/6a3a3d1257 3f375152432d2e1b591d1e/121448 24163f37261b271d31/6b1112
4925261b271d1e/28292a 252f591d0d45/1f20213233 251c1d1e/3c5a5b106d 24025844044c1d1e/07085c 49020c1d4b1e/6a28292a35361522 021741425e5f4a1d381e/64 051d1e/5a5b12132b 1d0d1e/545507086162120b65 4f4966671b691d1e/28292a4e126d 584041441b1d1e/465c 401b1d4b1e/393a3b5a5b1147 17402d2e1a1b301d381e/0708
4f502c2d2e2f3031/3233343536 2c26/3c23 24162c2706/1f20213b 3f5d5960/0e0f1012 503f03041c/123457 3f434c/391248 16021718415e5f0c31/6162636415 0218671b4a/0e0f6323 5002181b054d06/5455633422 5d1b4d60/4e1171130b 164142441a1b69/467157 43/6a3a0e0f48
3738/393a3b3c3d123e 3751522d2e69/121364223e2b 58372668300d/6b123e 19/1f20213e6d 1927/3d103e5c 1951520304594b/61623e 241867681b1c38/6a6b3e 171841425e5f1b4c/3e2b 18581b0c0d/3d11153e 51521a1b4a/54553e6d 6805/6b4e0b3e5c 41582f4b/32334635363e
3f404142434445/460b48 163f40053145/6a3a5a5b 3f402d2e45/07086423 50702526690645/28292a 705d25306045/1f20213b616213 24167025671b45/5a5b102257 4303041b2745/070848 501b593145/3928292a113536 415e5f1a1c45/23 16184c0645/5a5b12 17185d2f0c926045/5455070832331215 50184a4d45/3c28292a4e1257
4a4b/4e71 5841440c38/467147150b /393a0e0f2b 492c2d2e050d/6162343536647d 2c26671b/6d 2c1b69/1f20215c 021b30/0e0f101112 49025d03041a38/123413 0227/6a3b122b 24171841425e5f2f590d/32336322 181c/0e0f3c636d 4f49184c/545563345c
16171851524c4d5345/545556 18431c4d5345/6b4e5648 50184142444a533145/61624622567e 4f663767681b0c5345/6a3a3b3d12150b5623 163751522d2e1b530645/1256 5d372605536045/6b111256 50191a5345/1f20215657 194368695345/3d10475648 241619515203042f305331/323356 025345/396b3c5623 5002415e5f27530645/3536136456 025d6859536045/3d56
241858595345/5a5b12565c 171827534b45/5455070861621256 4f4918671b4c533845/28292a4e121356 4041441b1c5345/46562b 404a530d45/393a5a5b110b56 402d2e1a0c5345/070815566d 495825265345/28292a353622565c 252f05534b45/1f20213b323356 25533845/3c5a5b1056 020304695345/0708562b 490230530d45/6a28292a56 0241425e5f5345/64566d
5d415e5f60/61626364 6730/0e0f6357 43594d/5455633435360b48 181b274d31/4e11 17184142441a1b/4623 181b1c06/6a3a0e0f13 4f025d2c2d2e2f4a60/32338934 022c260c/3c1557 022c43/1f20210b48788d 0531/0e0f10128e 0304/12342223 6906/393b12
0267681b69/6a6b3e6d 490241425e5f1b/3e5c 021b4b/3d113e 171851521a3038/5455223e 186859/6b4e3e2b 4f49185841442f270d/3233460b3e 374c/393a3c3d123e6d 3751522d2e1c/12643e5c 3726684a4b/6b12133e 49190c38/1f20213b3536153e788f 19/3d103e2b 581951520304050d/61620b3e
0203041b05061e/070847 50025d1b601e/393b28292a11 0217415e5f1a691e/1457 16431e/5a5b1248 2f4d311e/54550708323312 50304d1e/3c28292a4e1235361423 3f4041424459061e/46098a0b 163f5d4027601e/6a3a5a5b098a22 173f402d2e4c1e/0708098a641457 4f502543261c1e/28292a48 254a311e/1f20136162 241625671b0c1e/5a5b1013141523
491b0c0d/0e0f101112131415 03041a4a/123435366d 05/6a125c 2441425e5f2f4b/32336314 49586938/0e0f3c63 17/54553b63342b 020d/4e7114 02414430/46710b6d 4f49022e/393a0e0f475c 2c2d2e274b/61623464147d 582c26671b4c38/ 172c1b1c/1f2021222b
4f50191a1c1d1e/1f20212223 19684c1d061e/3d1014 58165d19515203042f0c1d601e/323315 024a1d1e/396b3c1357 500241435e5f051d1e/641448 02681d311e/3d 1617185152694d1d1e/54553b23 184d1d061e/6b4e14 50185d4142441d601e/61624635367e 663f3767681b301d1e/6a3a3d120b57 163f375152432d2e1b591d1e/121448 3f3726271d311e/6b1112
2526271d1e/28292a2b 252f591d0d1e/1f20213233 251c1d1e/3c5a5b106d 025803044c1d1e/07085c 020c1d4b1e/6a28292a35361522 0241425e5f4a1d381e/64 2418051d1e/5a5b12132b 17181d0d1e/54550708616212 18671b691d1e/28292a4e126d 584041441b1d1e/465c 401d4b1e/393a3b5a5b110b 402d2e1a301d381e/0708
2c2d2e2f3031/32333435360b 162c26/3c23 2c2706/1f20213b75 503f5d5960/0e0f10126f 3f03041c/126f344757 24163f434c/39126f48 02415e5f0c31/616263641573 5002671b4a/0e0f6323 02054d06/5455633422 16185d4d60/4e1113 17184142441a69/4657 501843/6a5b0e0f48
3738/393a3b3c3d123e 3751522d2e69/121364220b3e2b 58372668300d/6b123e 4919/1f20213e6d 1927/3d103e5c 1951520304594b/61623e 67681b1c38/6a6b3e 4941425e5f4c/3e2b 580c0d/3d11153e 24171851521a4a/54553e6d 186805/6b4e3e5c 4f491841442f4b/32334635363e
1617183f404142434445/4648 183f40053145/6a3a5a5b 50183f402d2e45/07086423 4f2526690645/28292a0b82 165d25306045/1f20213b6162136584 256745/5a5b10225786 504303042745/070848 593145/3928292a113536 2416415e5f1a1c45/23 4c0645/5a5b7612 505d2f0c4d6045/54550708323376121585 4a4d45/3c28292a4e761257
24184a4b/4e72 17185841440c38/461572 4f4918/393a0e0f722b 2c2d2e050d/616234353664727e73 662c2667/0b726d 2c69/1f2021725c75 4902304b/0e0f1011126f72 025803041a38/126f341372 0227/6a3b126f722b 41425e5f2f590d/3233632272 491c/0e0f3c63726d 4c/54556334725c93
51524c4d53/54555657 431c4d53/6b4e5648 4142444a5331/616246220b567b 183767681b0c53/6a3a3b3d12155623 17183751522d2e1b5306/1256 185d37261b055360/6b111256 4f70191a1b/1f20215657 701943681b6953/3d105648 7019515203042f305331/32330b56 0253/396b3c475623 02415e5f275306/3536136456 025d68595360/3d56
0158595345/5a5b12565c 490127534b45/545507086162125679 01671b4c533845/28292a4e121356 0117184041441c5345/4647562b 0118404a530d45/393a5a5b1156 4f490118402d2e1a0c5345/0708150b566d 015825265345/28292a353622565c 01252f05534b45/1f20216132335678 0125533845/3c5a5b1056 1601020304695345/0708562b 010230530d45/6a28292a56 010241425e5f5345/640b566d
015d415e5f60/6162636473 5001671b30/0e0f6357 011743594d/54556334353648 1601274d31/4e11 014142441a4c/4623 50011c06/6a3a0e0f13 01025d2c2d2e2f4a60/323389340b 1601022c260c/3c1557 0102162c43/1f20214875 4f50010531/0e0f1012 010304/12342223 2416016906/393b12
49010267681b69/6a6b3e6d 010241425e5f/3e5c 01024b/3d113e 240151521a3038/5455223e 49016859/6b4e3e2b 01175841442f270d/3233463e 01374c/393a3c3d6c8a123e6d 013751522d2e1c/6c8a12640b3e5c 4f49013726684a4b/6b6c8a12133e 01190c38/1f20213b3536153e 0119/3d103e2b 0117581951520304050d/61623e
4f500102030405061e/070874 01025d601e/393b28292a1174 24160102415e5f1a691e/741457 01431e/5a5b761248 50012f4d311e/545507083233761285 01304d1e/3c28292a4e761235361423 160117183f4041424459061e/46 01183f5d4027601e/6a3a5a5b22 5001183f402d2e4c1e/0708641457 012543261c1e/28292a09900b4882 1601254a311e/1f2021616209906584 0125670c/5a5b1009901314152386
010c0d/0e0f101112131415726e 0103041a4a/1234353647726e6d 0105/6a12726e5c 0141425e5f2f4b/32336314726e 01586938/0e0f3c63726e 01/54553b6334726e2b87 240102180d/4e14726e 01021718414430/46726e6d 01021859/393a0e0f726e5c 012c2d2e274b/6162346414726e7e73 0166582c26674c38/0b726e 012c1c/1f202122726e2b75
191a1c1d1e/1f2021220b722375 1619684c1d061e/3d1014 5d19515203042f0c1d601e/32331572 50024a1d1e/396b3c137257 0241435e5f051d1e/64147248 241602681d311e/3d72 5152694d1d1e/54553b767223 504d1d061e/6b4e761472 5d4142441d601e/616246763536727b73 16183f376768301d1e/6a3a3d126f7257 17183f375152432d2e591d1e/126f147248 50183f3726271d311e/6b11126f72
2526271d1e/28292a2b 252f591d0d1e/1f202132330b75 251c1d1e/3c5a5b106d 49025844044c1d1e/0708745c 020c1d4b1e/6a28292a7435361522 0241425e5f4a1d381e/7464 051d1e/5a5b7612132b77 491d0d1e/545507086162761273 67691d1e/28292a4e76126d 2417185d4041441d1e/465c 18401d4b1e/393a3b5a5b11 4f4918402d2e1a301d381e/070847
1617182c2d2e2f3031/3233343536 182c26/3c23 50182c2706/1f20213b 4f3f5d5960/0e0f10120b 163f03041c/123457 3f434c/39124748 5002415e5f0c31/6162636415 02674a/0e0f6323 241602054d06/5455633422 5d4d60/4e1113 504142441a69/4657 431b/6a3a0e0f48
24183738/393a3b3c3d126f3e 17183751522d2e69/126f1364223e2b 4f491858372668300d/6b126f3e 19/1f20213e6d75 1927/3d100b3e5c 1951520304594b/61623e6573 4967681c38/6a6b473e 41425e5f4c/3e2b 580c0d/3d11153e 51521a4a/5455763e6d83 49681b05/6b4e763e5c 41442f4b/3233467635363e
3f4041424344/4648 3f400531/6a3a5a5b 3f402d2e/0708640b23 1825266906/28292a82 16185d253060/1f20213b61621378 661825671b/5a5b10225786 4f4303041b27/7448 1b5931/3928292a11743536 415e5f1a1b1c/740b23 4c06/5a5b12 5d2f0c4d60/5455070832331215 4a4d/3c28292a4e1257
4a4b/4e72 495841440c38/461572 /393a0e0f722b 17182c2d2e050d/616234353664727b73 182c2667/726d 4f49182c69/1f20210b725c75 02304b/0e0f10111272 025803041a38/12341372 0227/6a3b12722b 4941425e5f2f590d/3233632272 1c/0e0f3c63726d 4c/545563340b725c
51524c4d5345/545576567257 50431c4d5345/6b4e76567248 174142444a533145/616246762256727b73 163767680c5345/6a3a3b3d1215567223 3751522d2e530645/125672 505d372605536045/6b11125672 191a5345/1f20210b56725775 16194368695345/3d10567248 1719515203042f30533145/32335672 4f50029145/396b3c567223 02415e5f27530645/353613645672 2416025d6859536045/3d5672
4958595345/5a5b7612565c77 27534b45/54550708616276125673 674c533845/28292a4e76121356 244041441c5345/46562b 49404a530d45/393a5a5b1156 17402d2e1a0c5345/070815566d 5825265345/28292a353622565c 252f05534b45/1f20213b32330b5675 4f4925533845/3c5a5b1056 020304695345/070874562b 0230530d45/6a28292a744756 021741425e5f5345/7464566d
4f505d415e5f60/61626364 6730/0e0f6357 241643594d/54556334353648 274d31/4e11 504142441a4c/464723 1b1c06/6a3a0e0f13 160217185d2c2d2e2f4a60/32338934 02182c260c/3c1557 5002182c43/1f202148 0531/0e0f10120b 160304/12342223 6906/393b12
02676869/6a6b3e6d 0241425e5f/3e5c 024b/3d113e 51521a3038/545576223e83 681b59/6b4e763e2b 5841442f270d/323346763e 2418374c/393a3c3d123e6d 17183751522d2e1c/12643e5c 183726684a4b/6b12133e 190c38/1f20213b6c903536153e75 19/3d106c900b3e2b 581951520304050d/61626c903e6573
""".strip().split("\n")


def _read(rows, words):
    out = []
    for r in rows:
        line = []
        for c in r.split(" "):
            a, b = c.split("/")
            line.append(tuple(tuple(words[int(x[i:i + 2], 16)] for i in range(0, len(x), 2)) or ("无",) for x in (a, b)))
        out.append(tuple(line))
    return tuple(out)


DAY = _read(DAY, WORDS)
HOUR = _read(HOUR, WORDS)
SPIRIT = _read(SPIRIT, GODS)
