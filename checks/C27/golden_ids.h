// The type IDs as of the time this check was written: they are a part of what is persisted. Made with C27_DUMP=1.
static const std::pair<const char*, uint64_t> kGoldenIDs[] = {
  {"H<H<prim(int32_t)>>", 9204937644311941547ull},
  {"H<H<ut::S0>>", 9204518316840824520ull},
  {"H<TD<ut::E8>>", 9205915082047927204ull},
  {"H<prim(bool)>", 9205222825888695096ull},
  {"H<prim(char)>", 9205222825304799101ull},
  {"H<prim(double)>", 9205222823155750790ull},
  {"H<prim(float)>", 9205222825420195388ull},
  {"H<prim(int16_t)>", 9205222824394027008ull},
  {"H<prim(int32_t)>", 9205222822598525078ull},
  {"H<prim(int64_t)>", 9205222824781763893ull},
  {"H<prim(int8_t)>", 9205222826125009338ull},
  {"H<prim(std::chrono::microseconds)>", 9205222825001899519ull},
  {"H<prim(std::chrono::milliseconds)>", 9205222822434767941ull},
  {"H<prim(std::string)>", 9205222823274833607ull},
  {"H<prim(uint16_t)>", 9205222823977533761ull},
  {"H<prim(uint32_t)>", 9205222822753137111ull},
  {"H<prim(uint64_t)>", 9205222824661902452ull},
  {"H<prim(uint8_t)>", 9205222826544107771ull},
  {"H<ut::CV>", 9205161595197802072ull},
  {"H<ut::D0>", 9203811552687104485ull},
  {"H<ut::D1>", 9204675825569355860ull},
  {"H<ut::E64>", 9200333770383986500ull},
  {"H<ut::E8>", 9208512708866227868ull},
  {"H<ut::Empty>", 9206344518149602096ull},
  {"H<ut::OfTemplated>", 9203532038391612097ull},
  {"H<ut::Ping>", 9201011452356047301ull},
  {"H<ut::Pong>", 9207770869545946626ull},
  {"H<ut::Renamed>", 9207321053064838255ull},
  {"H<ut::S0>", 9207357532353892911ull},
  {"H<ut::Self>", 9202327919565505558ull},
  {"H<ut::SelfOther>", 9200786098145897826ull},
  {"H<ut::Tail>", 9206326996801053941ull},
  {"H<ut::V>", 9208827813272695865ull},
  {"H<ut::VN>", 9209350156361583653ull},
  {"H<ut::VS>", 9203204237662688030ull},
  {"TD<ut::E8>", 9207276354958565136ull},
  {"array(,H<prim(int32_t)>,1)", 9301550359659545907ull},
  {"array(,H<prim(int32_t)>,17)", 9301550359659547955ull},
  {"array(,H<prim(int32_t)>,2)", 9301550359659546035ull},
  {"array(,H<ut::S0>,1)", 9308628037702488571ull},
  {"array(,H<ut::S0>,17)", 9308628037702490619ull},
  {"array(,H<ut::S0>,2)", 9308628037702488699ull},
  {"array(,TD<ut::E8>,1)", 9307978618539866371ull},
  {"array(,TD<ut::E8>,17)", 9307978618539868419ull},
  {"array(,TD<ut::E8>,2)", 9307978618539866499ull},
  {"array(,array(,prim(int32_t),2),1)", 9301165936132559068ull},
  {"array(,array(,prim(int32_t),2),17)", 9301165936132561116ull},
  {"array(,array(,prim(int32_t),2),2)", 9301165936132559196ull},
  {"array(,array(,ut::E8,2),1)", 9301166181839360220ull},
  {"array(,array(,ut::E8,2),17)", 9301166181839362268ull},
  {"array(,array(,ut::E8,2),2)", 9301166181839360348ull},
  {"array(,array(,ut::S0,2),1)", 9303151684159253724ull},
  {"array(,array(,ut::S0,2),17)", 9303151684159255772ull},
  {"array(,array(,ut::S0,2),2)", 9303151684159253852ull},
  {"array(,array(,ut::V,2),1)", 9306361664338154660ull},
  {"array(,array(,ut::V,2),17)", 9306361664338156708ull},
  {"array(,array(,ut::V,2),2)", 9306361664338154788ull},
  {"array(,map(,prim(std::string),prim(int32_t)),1)", 9307834964843066820ull},
  {"array(,map(,prim(std::string),prim(int32_t)),17)", 9307834964843068868ull},
  {"array(,map(,prim(std::string),prim(int32_t)),2)", 9307834964843066948ull},
  {"array(,map(,prim(std::string),ut::E8),1)", 9303658809063273916ull},
  {"array(,map(,prim(std::string),ut::E8),17)", 9303658809063275964ull},
  {"array(,map(,prim(std::string),ut::E8),2)", 9303658809063274044ull},
  {"array(,map(,prim(std::string),ut::S0),1)", 9301499023964730900ull},
  {"array(,map(,prim(std::string),ut::S0),17)", 9301499023964732948ull},
  {"array(,map(,prim(std::string),ut::S0),2)", 9301499023964731028ull},
  {"array(,map(,prim(std::string),ut::V),1)", 9304424003577842428ull},
  {"array(,map(,prim(std::string),ut::V),17)", 9304424003577844476ull},
  {"array(,map(,prim(std::string),ut::V),2)", 9304424003577842556ull},
  {"array(,optional(,prim(int32_t)),1)", 9300478933725159931ull},
  {"array(,optional(,prim(int32_t)),17)", 9300478933725161979ull},
  {"array(,optional(,prim(int32_t)),2)", 9300478933725160059ull},
  {"array(,optional(,ut::E8),1)", 9300479916552364539ull},
  {"array(,optional(,ut::E8),17)", 9300479916552366587ull},
  {"array(,optional(,ut::E8),2)", 9300479916552364667ull},
  {"array(,optional(,ut::S0),1)", 9308421925831938555ull},
  {"array(,optional(,ut::S0),17)", 9308421925831940603ull},
  {"array(,optional(,ut::S0),2)", 9308421925831938683ull},
  {"array(,optional(,ut::V),1)", 9303119615576781059ull},
  {"array(,optional(,ut::V),17)", 9303119615576783107ull},
  {"array(,optional(,ut::V),2)", 9303119615576781187ull},
  {"array(,pair(,prim(int32_t),prim(int32_t)),1)", 9307834964843069124ull},
  {"array(,pair(,prim(int32_t),prim(int32_t)),17)", 9307834964843071172ull},
  {"array(,pair(,prim(int32_t),prim(int32_t)),2)", 9307834964843069252ull},
  {"array(,pair(,ut::E8,ut::E8),1)", 9300622174866996924ull},
  {"array(,pair(,ut::E8,ut::E8),17)", 9300622174866998972ull},
  {"array(,pair(,ut::E8,ut::E8),2)", 9300622174866997052ull},
  {"array(,pair(,ut::S0,ut::S0),1)", 9307447620613295892ull},
  {"array(,pair(,ut::S0,ut::S0),17)", 9307447620613297940ull},
  {"array(,pair(,ut::S0,ut::S0),2)", 9307447620613296020ull},
  {"array(,pair(,ut::V,ut::V),1)", 9305570601354400004ull},
  {"array(,pair(,ut::V,ut::V),17)", 9305570601354402052ull},
  {"array(,pair(,ut::V,ut::V),2)", 9305570601354400132ull},
  {"array(,prim(bool),1)", 9309767778871345371ull},
  {"array(,prim(bool),17)", 9309767778871347419ull},
  {"array(,prim(bool),2)", 9309767778871345499ull},
  {"array(,prim(char),1)", 9309767778871345611ull},
  {"array(,prim(char),17)", 9309767778871347659ull},
  {"array(,prim(char),2)", 9309767778871345739ull},
  {"array(,prim(double),1)", 9309767778871345699ull},
  {"array(,prim(double),17)", 9309767778871347747ull},
  {"array(,prim(double),2)", 9309767778871345827ull},
  {"array(,prim(float),1)", 9309767778871345691ull},
  {"array(,prim(float),17)", 9309767778871347739ull},
  {"array(,prim(float),2)", 9309767778871345819ull},
  {"array(,prim(int16_t),1)", 9309767778871345539ull},
  {"array(,prim(int16_t),17)", 9309767778871347587ull},
  {"array(,prim(int16_t),2)", 9309767778871345667ull},
  {"array(,prim(int32_t),1)", 9309767778871345547ull},
  {"array(,prim(int32_t),17)", 9309767778871347595ull},
  {"array(,prim(int32_t),2)", 9309767778871345675ull},
  {"array(,prim(int64_t),1)", 9309767778871345555ull},
  {"array(,prim(int64_t),17)", 9309767778871347603ull},
  {"array(,prim(int64_t),2)", 9309767778871345683ull},
  {"array(,prim(int8_t),1)", 9309767778871345531ull},
  {"array(,prim(int8_t),17)", 9309767778871347579ull},
  {"array(,prim(int8_t),2)", 9309767778871345659ull},
  {"array(,prim(std::chrono::microseconds),1)", 9309767778871345771ull},
  {"array(,prim(std::chrono::microseconds),17)", 9309767778871347819ull},
  {"array(,prim(std::chrono::microseconds),2)", 9309767778871345899ull},
  {"array(,prim(std::chrono::milliseconds),1)", 9309767778871345779ull},
  {"array(,prim(std::chrono::milliseconds),17)", 9309767778871347827ull},
  {"array(,prim(std::chrono::milliseconds),2)", 9309767778871345907ull},
  {"array(,prim(std::string),1)", 9309767778871345619ull},
  {"array(,prim(std::string),17)", 9309767778871347667ull},
  {"array(,prim(std::string),2)", 9309767778871345747ull},
  {"array(,prim(uint16_t),1)", 9309767778871345459ull},
  {"array(,prim(uint16_t),17)", 9309767778871347507ull},
  {"array(,prim(uint16_t),2)", 9309767778871345587ull},
  {"array(,prim(uint32_t),1)", 9309767778871345467ull},
  {"array(,prim(uint32_t),17)", 9309767778871347515ull},
  {"array(,prim(uint32_t),2)", 9309767778871345595ull},
  {"array(,prim(uint64_t),1)", 9309767778871345475ull},
  {"array(,prim(uint64_t),17)", 9309767778871347523ull},
  {"array(,prim(uint64_t),2)", 9309767778871345603ull},
  {"array(,prim(uint8_t),1)", 9309767778871345451ull},
  {"array(,prim(uint8_t),17)", 9309767778871347499ull},
  {"array(,prim(uint8_t),2)", 9309767778871345579ull},
  {"array(,set(,prim(int32_t)),1)", 9307834964843069124ull},
  {"array(,set(,prim(int32_t)),17)", 9307834964843071172ull},
  {"array(,set(,prim(int32_t)),2)", 9307834964843069252ull},
  {"array(,set(,ut::E8),1)", 9300622174866996924ull},
  {"array(,set(,ut::E8),17)", 9300622174866998972ull},
  {"array(,set(,ut::E8),2)", 9300622174866997052ull},
  {"array(,set(,ut::S0),1)", 9307447620613295892ull},
  {"array(,set(,ut::S0),17)", 9307447620613297940ull},
  {"array(,set(,ut::S0),2)", 9307447620613296020ull},
  {"array(,set(,ut::V),1)", 9305570601354400004ull},
  {"array(,set(,ut::V),17)", 9305570601354402052ull},
  {"array(,set(,ut::V),2)", 9305570601354400132ull},
  {"array(,umap(,prim(std::string),prim(int32_t)),1)", 9307834964843066820ull},
  {"array(,umap(,prim(std::string),prim(int32_t)),17)", 9307834964843068868ull},
  {"array(,umap(,prim(std::string),prim(int32_t)),2)", 9307834964843066948ull},
  {"array(,umap(,prim(std::string),ut::E8),1)", 9303658809063273916ull},
  {"array(,umap(,prim(std::string),ut::E8),17)", 9303658809063275964ull},
  {"array(,umap(,prim(std::string),ut::E8),2)", 9303658809063274044ull},
  {"array(,umap(,prim(std::string),ut::S0),1)", 9301499023964730900ull},
  {"array(,umap(,prim(std::string),ut::S0),17)", 9301499023964732948ull},
  {"array(,umap(,prim(std::string),ut::S0),2)", 9301499023964731028ull},
  {"array(,umap(,prim(std::string),ut::V),1)", 9304424003577842428ull},
  {"array(,umap(,prim(std::string),ut::V),17)", 9304424003577844476ull},
  {"array(,umap(,prim(std::string),ut::V),2)", 9304424003577842556ull},
  {"array(,uset(,prim(int32_t)),1)", 9307834964843069124ull},
  {"array(,uset(,prim(int32_t)),17)", 9307834964843071172ull},
  {"array(,uset(,prim(int32_t)),2)", 9307834964843069252ull},
  {"array(,uset(,ut::E8),1)", 9300622174866996924ull},
  {"array(,uset(,ut::E8),17)", 9300622174866998972ull},
  {"array(,uset(,ut::E8),2)", 9300622174866997052ull},
  {"array(,uset(,ut::S0),1)", 9307447620613295892ull},
  {"array(,uset(,ut::S0),17)", 9307447620613297940ull},
  {"array(,uset(,ut::S0),2)", 9307447620613296020ull},
  {"array(,uset(,ut::V),1)", 9305570601354400004ull},
  {"array(,uset(,ut::V),17)", 9305570601354402052ull},
  {"array(,uset(,ut::V),2)", 9305570601354400132ull},
  {"array(,ut::CV,1)", 9301648647905390316ull},
  {"array(,ut::CV,17)", 9301648647905392364ull},
  {"array(,ut::CV,2)", 9301648647905390444ull},
  {"array(,ut::D0,1)", 9307901491251105163ull},
  {"array(,ut::D0,17)", 9307901491251107211ull},
  {"array(,ut::D0,2)", 9307901491251105291ull},
  {"array(,ut::D1,1)", 9301869797232756827ull},
  {"array(,ut::D1,17)", 9301869797232758875ull},
  {"array(,ut::D1,2)", 9301869797232756955ull},
  {"array(,ut::E64,1)", 9309767783397498955ull},
  {"array(,ut::E64,17)", 9309767783397501003ull},
  {"array(,ut::E64,2)", 9309767783397499083ull},
  {"array(,ut::E8,1)", 9309767809584695691ull},
  {"array(,ut::E8,17)", 9309767809584697739ull},
  {"array(,ut::E8,2)", 9309767809584695819ull},
  {"array(,ut::Empty,1)", 9309767801557325443ull},
  {"array(,ut::Empty,17)", 9309767801557327491ull},
  {"array(,ut::Empty,2)", 9309767801557325571ull},
  {"array(,ut::OfTemplated,1)", 9308410983950678051ull},
  {"array(,ut::OfTemplated,17)", 9308410983950680099ull},
  {"array(,ut::OfTemplated,2)", 9308410983950678179ull},
  {"array(,ut::Ping,1)", 9300627892962165587ull},
  {"array(,ut::Ping,17)", 9300627892962167635ull},
  {"array(,ut::Ping,2)", 9300627892962165715ull},
  {"array(,ut::Pong,1)", 9306701736399558291ull},
  {"array(,ut::Pong,17)", 9306701736399560339ull},
  {"array(,ut::Pong,2)", 9306701736399558419ull},
  {"array(,ut::Renamed,1)", 9303765999485142707ull},
  {"array(,ut::Renamed,17)", 9303765999485144755ull},
  {"array(,ut::Renamed,2)", 9303765999485142835ull},
  {"array(,ut::S0,1)", 9303765997374682379ull},
  {"array(,ut::S0,17)", 9303765997374684427ull},
  {"array(,ut::S0,2)", 9303765997374682507ull},
  {"array(,ut::Self,1)", 9303781768492062715ull},
  {"array(,ut::Self,17)", 9303781768492064763ull},
  {"array(,ut::Self,2)", 9303781768492062843ull},
  {"array(,ut::SelfOther,1)", 9309651140179858179ull},
  {"array(,ut::SelfOther,17)", 9309651140179860227ull},
  {"array(,ut::SelfOther,2)", 9309651140179858307ull},
  {"array(,ut::Tail,1)", 9309515685184605267ull},
  {"array(,ut::Tail,17)", 9309515685184607315ull},
  {"array(,ut::Tail,2)", 9309515685184605395ull},
  {"array(,ut::V,1)", 9304167244897044996ull},
  {"array(,ut::V,17)", 9304167244897047044ull},
  {"array(,ut::V,2)", 9304167244897045124ull},
  {"array(,ut::VN,1)", 9304840144605480668ull},
  {"array(,ut::VN,17)", 9304840144605482716ull},
  {"array(,ut::VN,2)", 9304840144605480796ull},
  {"array(,ut::VS,1)", 9302506325055331748ull},
  {"array(,ut::VS,17)", 9302506325055333796ull},
  {"array(,ut::VS,2)", 9302506325055331876ull},
  {"array(,vector(,prim(int32_t)),1)", 9301165936132557020ull},
  {"array(,vector(,prim(int32_t)),17)", 9301165936132559068ull},
  {"array(,vector(,prim(int32_t)),2)", 9301165936132557148ull},
  {"array(,vector(,ut::E8),1)", 9301166181839358172ull},
  {"array(,vector(,ut::E8),17)", 9301166181839360220ull},
  {"array(,vector(,ut::E8),2)", 9301166181839358300ull},
  {"array(,vector(,ut::S0),1)", 9303151684159251676ull},
  {"array(,vector(,ut::S0),17)", 9303151684159253724ull},
  {"array(,vector(,ut::S0),2)", 9303151684159251804ull},
  {"array(,vector(,ut::V),1)", 9306361664338152612ull},
  {"array(,vector(,ut::V),17)", 9306361664338154660ull},
  {"array(,vector(,ut::V),2)", 9306361664338152740ull},
  {"map(,prim(double),prim(double))", 9349351407460197736ull},
  {"map(,prim(double),prim(int32_t))", 9349351407460158824ull},
  {"map(,prim(double),prim(std::string))", 9349351407460177256ull},
  {"map(,prim(double),prim(uint8_t))", 9349351407460134248ull},
  {"map(,prim(double),ut::E8)", 9348829387987684711ull},
  {"map(,prim(double),ut::S0)", 9342309414850366834ull},
  {"map(,prim(double),ut::V)", 9341425037302006415ull},
  {"map(,prim(int32_t),prim(double))", 9349351407460198344ull},
  {"map(,prim(int32_t),prim(int32_t))", 9349351407460159432ull},
  {"map(,prim(int32_t),prim(std::string))", 9349351407460177864ull},
  {"map(,prim(int32_t),prim(uint8_t))", 9349351407460134856ull},
  {"map(,prim(int32_t),ut::E8)", 9348829387987685319ull},
  {"map(,prim(int32_t),ut::S0)", 9342309414850367442ull},
  {"map(,prim(int32_t),ut::V)", 9341425037302005807ull},
  {"map(,prim(std::string),array(,prim(int32_t),2))", 9344671957991643462ull},
  {"map(,prim(std::string),array(,ut::E8,2))", 9344712694754007366ull},
  {"map(,prim(std::string),array(,ut::S0,2))", 9340168614376528199ull},
  {"map(,prim(std::string),array(,ut::V,2))", 9349397143915733319ull},
  {"map(,prim(std::string),map(,prim(std::string),prim(int32_t)))", 9345831033819775298ull},
  {"map(,prim(std::string),map(,prim(std::string),ut::E8))", 9347363305119430978ull},
  {"map(,prim(std::string),map(,prim(std::string),ut::S0))", 9343764261674717506ull},
  {"map(,prim(std::string),map(,prim(std::string),ut::V))", 9346384265893411138ull},
  {"map(,prim(std::string),optional(,prim(int32_t)))", 9341397483653004976ull},
  {"map(,prim(std::string),optional(,ut::E8))", 9341385307169062576ull},
  {"map(,prim(std::string),optional(,ut::S0))", 9346865142968581808ull},
  {"map(,prim(std::string),optional(,ut::V))", 9344651581697132208ull},
  {"map(,prim(std::string),pair(,prim(int32_t),prim(std::string)))", 9348337134544830787ull},
  {"map(,prim(std::string),pair(,ut::E8,prim(std::string)))", 9347211560868659523ull},
  {"map(,prim(std::string),pair(,ut::S0,prim(std::string)))", 9341063413703393603ull},
  {"map(,prim(std::string),pair(,ut::V,prim(std::string)))", 9343265569102739780ull},
  {"map(,prim(std::string),prim(double))", 9349351407460198056ull},
  {"map(,prim(std::string),prim(int32_t))", 9349351407460159144ull},
  {"map(,prim(std::string),prim(std::string))", 9349351407460177576ull},
  {"map(,prim(std::string),prim(uint8_t))", 9349351407460134568ull},
  {"map(,prim(std::string),set(,prim(int32_t)))", 9349864178344870212ull},
  {"map(,prim(std::string),set(,ut::E8))", 9340302157245724996ull},
  {"map(,prim(std::string),set(,ut::S0))", 9340893884931543364ull},
  {"map(,prim(std::string),set(,ut::V))", 9348077601179599172ull},
  {"map(,prim(std::string),ut::E8)", 9348829387987685031ull},
  {"map(,prim(std::string),ut::S0)", 9342309414850367154ull},
  {"map(,prim(std::string),ut::V)", 9341425037302006095ull},
  {"map(,prim(std::string),vector(,prim(int32_t)))", 9340166545757198661ull},
  {"map(,prim(std::string),vector(,ut::E8))", 9349925807542851909ull},
  {"map(,prim(std::string),vector(,ut::S0))", 9342774350816893253ull},
  {"map(,prim(std::string),vector(,ut::V))", 9348867298349097285ull},
  {"map(,prim(uint8_t),prim(double))", 9349351407460196680ull},
  {"map(,prim(uint8_t),prim(int32_t))", 9349351407460157768ull},
  {"map(,prim(uint8_t),prim(std::string))", 9349351407460176200ull},
  {"map(,prim(uint8_t),prim(uint8_t))", 9349351407460133192ull},
  {"map(,prim(uint8_t),ut::E8)", 9348829387987683655ull},
  {"map(,prim(uint8_t),ut::S0)", 9342309414850365778ull},
  {"map(,prim(uint8_t),ut::V)", 9341425037302007471ull},
  {"map(,ut::E8,prim(double))", 9346567841015105480ull},
  {"map(,ut::E8,prim(int32_t))", 9346567841015082952ull},
  {"map(,ut::E8,prim(std::string))", 9346567841015101384ull},
  {"map(,ut::E8,prim(uint8_t))", 9346567841015041992ull},
  {"map(,ut::E8,ut::E8)", 9345949808713150407ull},
  {"map(,ut::E8,ut::S0)", 9346392654927605714ull},
  {"map(,ut::E8,ut::V)", 9347772353414602799ull},
  {"map(,ut::S0,prim(double))", 9347407028754084296ull},
  {"map(,ut::S0,prim(int32_t))", 9347407028754110920ull},
  {"map(,ut::S0,prim(std::string))", 9347407028754088392ull},
  {"map(,ut::S0,prim(uint8_t))", 9347407028754020808ull},
  {"map(,ut::S0,ut::E8)", 9342700208656996807ull},
  {"map(,ut::S0,ut::S0)", 9343052989431437778ull},
  {"map(,ut::S0,ut::V)", 9348630099113825839ull},
  {"map(,ut::V,prim(double))", 9340198906817054199ull},
  {"map(,ut::V,prim(int32_t))", 9340198906817031671ull},
  {"map(,ut::V,prim(std::string))", 9340198906817050103ull},
  {"map(,ut::V,prim(uint8_t))", 9340198906817121783ull},
  {"map(,ut::V,ut::E8)", 9347895858424655352ull},
  {"map(,ut::V,ut::S0)", 9346876333604580845ull},
  {"map(,ut::V,ut::V)", 9347818362024075792ull},
  {"optional(,H<prim(int32_t)>)", 9215969217509528271ull},
  {"optional(,H<ut::S0>)", 9214279929681298927ull},
  {"optional(,TD<ut::E8>)", 9211682253030810127ull},
  {"optional(,array(,prim(int32_t),2))", 9214663744530235760ull},
  {"optional(,array(,ut::E8,2))", 9214664727357440368ull},
  {"optional(,array(,ut::S0,2))", 9212606736637014384ull},
  {"optional(,array(,ut::V,2))", 9215446657352618128ull},
  {"optional(,map(,prim(std::string),prim(int32_t)))", 9211339859372266768ull},
  {"optional(,map(,prim(std::string),ut::E8))", 9214635236253095152ull},
  {"optional(,map(,prim(std::string),ut::S0))", 9215996095858923088ull},
  {"optional(,map(,prim(std::string),ut::V))", 9217696014311369200ull},
  {"optional(,optional(,prim(int32_t)))", 9211683513771984367ull},
  {"optional(,optional(,ut::E8))", 9211687445080802799ull},
  {"optional(,optional(,ut::S0))", 9213455482199098863ull},
  {"optional(,optional(,ut::V))", 9212246241178468879ull},
  {"optional(,pair(,prim(int32_t),prim(int32_t)))", 9211339859372275984ull},
  {"optional(,pair(,ut::E8,ut::E8))", 9212488699467987184ull},
  {"optional(,pair(,ut::S0,ut::S0))", 9219790482453183056ull},
  {"optional(,pair(,ut::V,ut::V))", 9212282405417599504ull},
  {"optional(,prim(bool))", 9218838894356726127ull},
  {"optional(,prim(char))", 9218838894356727087ull},
  {"optional(,prim(double))", 9218838894356727439ull},
  {"optional(,prim(float))", 9218838894356727407ull},
  {"optional(,prim(int16_t))", 9218838894356726799ull},
  {"optional(,prim(int32_t))", 9218838894356726831ull},
  {"optional(,prim(int64_t))", 9218838894356726863ull},
  {"optional(,prim(int8_t))", 9218838894356726767ull},
  {"optional(,prim(std::chrono::microseconds))", 9218838894356727727ull},
  {"optional(,prim(std::chrono::milliseconds))", 9218838894356727759ull},
  {"optional(,prim(std::string))", 9218838894356727119ull},
  {"optional(,prim(uint16_t))", 9218838894356726479ull},
  {"optional(,prim(uint32_t))", 9218838894356726511ull},
  {"optional(,prim(uint64_t))", 9218838894356726543ull},
  {"optional(,prim(uint8_t))", 9218838894356726447ull},
  {"optional(,set(,prim(int32_t)))", 9211339859372275984ull},
  {"optional(,set(,ut::E8))", 9212488699467987184ull},
  {"optional(,set(,ut::S0))", 9219790482453183056ull},
  {"optional(,set(,ut::V))", 9212282405417599504ull},
  {"optional(,umap(,prim(std::string),prim(int32_t)))", 9211339859372266768ull},
  {"optional(,umap(,prim(std::string),ut::E8))", 9214635236253095152ull},
  {"optional(,umap(,prim(std::string),ut::S0))", 9215996095858923088ull},
  {"optional(,umap(,prim(std::string),ut::V))", 9217696014311369200ull},
  {"optional(,uset(,prim(int32_t)))", 9211339859372275984ull},
  {"optional(,uset(,ut::E8))", 9212488699467987184ull},
  {"optional(,uset(,ut::S0))", 9219790482453183056ull},
  {"optional(,uset(,ut::V))", 9212282405417599504ull},
  {"optional(,ut::CV)", 9216594591621560752ull},
  {"optional(,ut::D0)", 9211373743875765295ull},
  {"optional(,ut::D1)", 9217246967802371951ull},
  {"optional(,ut::E64)", 9218838912461340463ull},
  {"optional(,ut::E8)", 9218839017210127407ull},
  {"optional(,ut::Empty)", 9218838985100646415ull},
  {"optional(,ut::OfTemplated)", 9213411714674056847ull},
  {"optional(,ut::Ping)", 9212279350720006991ull},
  {"optional(,ut::Pong)", 9216574724469577807ull},
  {"optional(,ut::Renamed)", 9214831776811915471ull},
  {"optional(,ut::S0)", 9214831768370074159ull},
  {"optional(,ut::Self)", 9214894852839595503ull},
  {"optional(,ut::SelfOther)", 9218372339590777359ull},
  {"optional(,ut::Tail)", 9217830519609765711ull},
  {"optional(,ut::V)", 9216668979588179472ull},
  {"optional(,ut::VN)", 9219360578421922160ull},
  {"optional(,ut::VS)", 9210025300221326480ull},
  {"optional(,vector(,prim(int32_t)))", 9214663744530227568ull},
  {"optional(,vector(,ut::E8))", 9214664727357432176ull},
  {"optional(,vector(,ut::S0))", 9212606736637006192ull},
  {"optional(,vector(,ut::V))", 9215446657352609936ull},
  {"pair(,prim(double),prim(double))", 9339351407460197736ull},
  {"pair(,prim(double),prim(int32_t))", 9339351407460158824ull},
  {"pair(,prim(double),prim(std::string))", 9339351407460177256ull},
  {"pair(,prim(double),prim(uint8_t))", 9339351407460134248ull},
  {"pair(,prim(double),ut::E8)", 9338829387987684711ull},
  {"pair(,prim(double),ut::S0)", 9332309414850366834ull},
  {"pair(,prim(double),ut::V)", 9331425037302006415ull},
  {"pair(,prim(int32_t),prim(double))", 9339351407460198344ull},
  {"pair(,prim(int32_t),prim(int32_t))", 9339351407460159432ull},
  {"pair(,prim(int32_t),prim(std::string))", 9339351407460177864ull},
  {"pair(,prim(int32_t),prim(uint8_t))", 9339351407460134856ull},
  {"pair(,prim(int32_t),ut::E8)", 9338829387987685319ull},
  {"pair(,prim(int32_t),ut::S0)", 9332309414850367442ull},
  {"pair(,prim(int32_t),ut::V)", 9331425037302005807ull},
  {"pair(,prim(std::string),array(,prim(int32_t),2))", 9334671957991643462ull},
  {"pair(,prim(std::string),array(,ut::E8,2))", 9334712694754007366ull},
  {"pair(,prim(std::string),array(,ut::S0,2))", 9330168614376528199ull},
  {"pair(,prim(std::string),array(,ut::V,2))", 9339397143915733319ull},
  {"pair(,prim(std::string),map(,prim(std::string),prim(int32_t)))", 9335831033819775298ull},
  {"pair(,prim(std::string),map(,prim(std::string),ut::E8))", 9337363305119430978ull},
  {"pair(,prim(std::string),map(,prim(std::string),ut::S0))", 9333764261674717506ull},
  {"pair(,prim(std::string),map(,prim(std::string),ut::V))", 9336384265893411138ull},
  {"pair(,prim(std::string),optional(,prim(int32_t)))", 9331397483653004976ull},
  {"pair(,prim(std::string),optional(,ut::E8))", 9331385307169062576ull},
  {"pair(,prim(std::string),optional(,ut::S0))", 9336865142968581808ull},
  {"pair(,prim(std::string),optional(,ut::V))", 9334651581697132208ull},
  {"pair(,prim(std::string),pair(,prim(int32_t),prim(std::string)))", 9338337134544830787ull},
  {"pair(,prim(std::string),pair(,ut::E8,prim(std::string)))", 9337211560868659523ull},
  {"pair(,prim(std::string),pair(,ut::S0,prim(std::string)))", 9331063413703393603ull},
  {"pair(,prim(std::string),pair(,ut::V,prim(std::string)))", 9333265569102739780ull},
  {"pair(,prim(std::string),prim(double))", 9339351407460198056ull},
  {"pair(,prim(std::string),prim(int32_t))", 9339351407460159144ull},
  {"pair(,prim(std::string),prim(std::string))", 9339351407460177576ull},
  {"pair(,prim(std::string),prim(uint8_t))", 9339351407460134568ull},
  {"pair(,prim(std::string),set(,prim(int32_t)))", 9339864178344870212ull},
  {"pair(,prim(std::string),set(,ut::E8))", 9330302157245724996ull},
  {"pair(,prim(std::string),set(,ut::S0))", 9330893884931543364ull},
  {"pair(,prim(std::string),set(,ut::V))", 9338077601179599172ull},
  {"pair(,prim(std::string),ut::E8)", 9338829387987685031ull},
  {"pair(,prim(std::string),ut::S0)", 9332309414850367154ull},
  {"pair(,prim(std::string),ut::V)", 9331425037302006095ull},
  {"pair(,prim(std::string),vector(,prim(int32_t)))", 9330166545757198661ull},
  {"pair(,prim(std::string),vector(,ut::E8))", 9339925807542851909ull},
  {"pair(,prim(std::string),vector(,ut::S0))", 9332774350816893253ull},
  {"pair(,prim(std::string),vector(,ut::V))", 9338867298349097285ull},
  {"pair(,prim(uint8_t),prim(double))", 9339351407460196680ull},
  {"pair(,prim(uint8_t),prim(int32_t))", 9339351407460157768ull},
  {"pair(,prim(uint8_t),prim(std::string))", 9339351407460176200ull},
  {"pair(,prim(uint8_t),prim(uint8_t))", 9339351407460133192ull},
  {"pair(,prim(uint8_t),ut::E8)", 9338829387987683655ull},
  {"pair(,prim(uint8_t),ut::S0)", 9332309414850365778ull},
  {"pair(,prim(uint8_t),ut::V)", 9331425037302007471ull},
  {"pair(,ut::E8,prim(double))", 9336567841015105480ull},
  {"pair(,ut::E8,prim(int32_t))", 9336567841015082952ull},
  {"pair(,ut::E8,prim(std::string))", 9336567841015101384ull},
  {"pair(,ut::E8,prim(uint8_t))", 9336567841015041992ull},
  {"pair(,ut::E8,ut::E8)", 9335949808713150407ull},
  {"pair(,ut::E8,ut::S0)", 9336392654927605714ull},
  {"pair(,ut::E8,ut::V)", 9337772353414602799ull},
  {"pair(,ut::S0,prim(double))", 9337407028754084296ull},
  {"pair(,ut::S0,prim(int32_t))", 9337407028754110920ull},
  {"pair(,ut::S0,prim(std::string))", 9337407028754088392ull},
  {"pair(,ut::S0,prim(uint8_t))", 9337407028754020808ull},
  {"pair(,ut::S0,ut::E8)", 9332700208656996807ull},
  {"pair(,ut::S0,ut::S0)", 9333052989431437778ull},
  {"pair(,ut::S0,ut::V)", 9338630099113825839ull},
  {"pair(,ut::V,prim(double))", 9330198906817054199ull},
  {"pair(,ut::V,prim(int32_t))", 9330198906817031671ull},
  {"pair(,ut::V,prim(std::string))", 9330198906817050103ull},
  {"pair(,ut::V,prim(uint8_t))", 9330198906817121783ull},
  {"pair(,ut::V,ut::E8)", 9337895858424655352ull},
  {"pair(,ut::V,ut::S0)", 9336876333604580845ull},
  {"pair(,ut::V,ut::V)", 9337818362024075792ull},
  {"prim(bool)", 9000000000000000011ull},
  {"prim(char)", 9000000000000000041ull},
  {"prim(double)", 9000000000000000052ull},
  {"prim(float)", 9000000000000000051ull},
  {"prim(int16_t)", 9000000000000000032ull},
  {"prim(int32_t)", 9000000000000000033ull},
  {"prim(int64_t)", 9000000000000000034ull},
  {"prim(int8_t)", 9000000000000000031ull},
  {"prim(std::chrono::microseconds)", 9000000000000000061ull},
  {"prim(std::chrono::milliseconds)", 9000000000000000062ull},
  {"prim(std::string)", 9000000000000000042ull},
  {"prim(uint16_t)", 9000000000000000022ull},
  {"prim(uint32_t)", 9000000000000000023ull},
  {"prim(uint64_t)", 9000000000000000024ull},
  {"prim(uint8_t)", 9000000000000000021ull},
  {"set(,H<prim(int32_t)>)", 9324481347077251378ull},
  {"set(,H<ut::S0>)", 9329827025029905937ull},
  {"set(,TD<ut::E8>)", 9327123653420212721ull},
  {"set(,array(,prim(int32_t),2))", 9326627503694093689ull},
  {"set(,array(,ut::E8,2))", 9326669592514534777ull},
  {"set(,array(,ut::S0,2))", 9322011887996038520ull},
  {"set(,array(,ut::V,2))", 9322360913608733848ull},
  {"set(,map(,prim(std::string),prim(int32_t)))", 9323366007065973021ull},
  {"set(,map(,prim(std::string),ut::E8))", 9328705033846843645ull},
  {"set(,map(,prim(std::string),ut::S0))", 9321456487893254749ull},
  {"set(,map(,prim(std::string),ut::V))", 9328443244713563645ull},
  {"set(,optional(,prim(int32_t)))", 9327626310326418960ull},
  {"set(,optional(,ut::E8))", 9327537264468426256ull},
  {"set(,optional(,ut::S0))", 9327488013475003920ull},
  {"set(,optional(,ut::V))", 9320927650088894960ull},
  {"set(,pair(,prim(int32_t),prim(int32_t)))", 9324299896952306972ull},
  {"set(,pair(,ut::E8,ut::E8))", 9325689617150362876ull},
  {"set(,pair(,ut::S0,ut::S0))", 9324041816979451484ull},
  {"set(,pair(,ut::V,ut::V))", 9320667727907702300ull},
  {"set(,prim(bool))", 9329351407460113032ull},
  {"set(,prim(char))", 9329351407460175560ull},
  {"set(,prim(double))", 9329351407460197736ull},
  {"set(,prim(float))", 9329351407460195720ull},
  {"set(,prim(int16_t))", 9329351407460157416ull},
  {"set(,prim(int32_t))", 9329351407460159432ull},
  {"set(,prim(int64_t))", 9329351407460161448ull},
  {"set(,prim(int8_t))", 9329351407460153352ull},
  {"set(,prim(std::chrono::microseconds))", 9329351407460215880ull},
  {"set(,prim(std::chrono::milliseconds))", 9329351407460217896ull},
  {"set(,prim(std::string))", 9329351407460177576ull},
  {"set(,prim(uint16_t))", 9329351407460135208ull},
  {"set(,prim(uint32_t))", 9329351407460137224ull},
  {"set(,prim(uint64_t))", 9329351407460139240ull},
  {"set(,prim(uint8_t))", 9329351407460133192ull},
  {"set(,set(,prim(int32_t)))", 9327225873910643995ull},
  {"set(,set(,ut::E8))", 9324170823317570811ull},
  {"set(,set(,ut::S0))", 9321984264439311963ull},
  {"set(,set(,ut::V))", 9320106250666690075ull},
  {"set(,umap(,prim(std::string),prim(int32_t)))", 9320037016401056000ull},
  {"set(,umap(,prim(std::string),ut::E8))", 9323094906015901920ull},
  {"set(,umap(,prim(std::string),ut::S0))", 9325130163989398111ull},
  {"set(,umap(,prim(std::string),ut::V))", 9327557862731240959ull},
  {"set(,uset(,prim(int32_t)))", 9321136338012716319ull},
  {"set(,uset(,ut::E8))", 9326843711051580670ull},
  {"set(,uset(,ut::S0))", 9323533222227783262ull},
  {"set(,uset(,ut::V))", 9327766128784557598ull},
  {"set(,ut::CV)", 9327711613171520944ull},
  {"set(,ut::D0)", 9328185996597477329ull},
  {"set(,ut::D1)", 9322554830010827922ull},
  {"set(,ut::E64)", 9325996758549836999ull},
  {"set(,ut::E8)", 9325949808713150407ull},
  {"set(,ut::Empty)", 9320817239774682098ull},
  {"set(,ut::OfTemplated)", 9326639872627998065ull},
  {"set(,ut::Ping)", 9322312811237333170ull},
  {"set(,ut::Pong)", 9324706478174587825ull},
  {"set(,ut::Renamed)", 9323053550633954098ull},
  {"set(,ut::S0)", 9323052989431437778ull},
  {"set(,ut::Self)", 9322917214571144722ull},
  {"set(,ut::SelfOther)", 9321854417630185969ull},
  {"set(,ut::Tail)", 9321201628710042802ull},
  {"set(,ut::V)", 9327818362024075792ull},
  {"set(,ut::VN)", 9322838517698676080ull},
  {"set(,ut::VS)", 9323403108757819536ull},
  {"set(,vector(,prim(int32_t)))", 9327946851960978810ull},
  {"set(,vector(,ut::E8))", 9327850299767684474ull},
  {"set(,vector(,ut::S0))", 9328527966398434682ull},
  {"set(,vector(,ut::V))", 9325430173572732058ull},
  {"umap(,prim(double),prim(double))", 9369351407460197736ull},
  {"umap(,prim(double),prim(int32_t))", 9369351407460158824ull},
  {"umap(,prim(double),prim(std::string))", 9369351407460177256ull},
  {"umap(,prim(double),prim(uint8_t))", 9369351407460134248ull},
  {"umap(,prim(double),ut::E8)", 9368829387987684711ull},
  {"umap(,prim(double),ut::S0)", 9362309414850366834ull},
  {"umap(,prim(double),ut::V)", 9361425037302006415ull},
  {"umap(,prim(int32_t),prim(double))", 9369351407460198344ull},
  {"umap(,prim(int32_t),prim(int32_t))", 9369351407460159432ull},
  {"umap(,prim(int32_t),prim(std::string))", 9369351407460177864ull},
  {"umap(,prim(int32_t),prim(uint8_t))", 9369351407460134856ull},
  {"umap(,prim(int32_t),ut::E8)", 9368829387987685319ull},
  {"umap(,prim(int32_t),ut::S0)", 9362309414850367442ull},
  {"umap(,prim(int32_t),ut::V)", 9361425037302005807ull},
  {"umap(,prim(std::string),array(,prim(int32_t),2))", 9364671957991643462ull},
  {"umap(,prim(std::string),array(,ut::E8,2))", 9364712694754007366ull},
  {"umap(,prim(std::string),array(,ut::S0,2))", 9360168614376528199ull},
  {"umap(,prim(std::string),array(,ut::V,2))", 9369397143915733319ull},
  {"umap(,prim(std::string),map(,prim(std::string),prim(int32_t)))", 9365831033819775298ull},
  {"umap(,prim(std::string),map(,prim(std::string),ut::E8))", 9367363305119430978ull},
  {"umap(,prim(std::string),map(,prim(std::string),ut::S0))", 9363764261674717506ull},
  {"umap(,prim(std::string),map(,prim(std::string),ut::V))", 9366384265893411138ull},
  {"umap(,prim(std::string),optional(,prim(int32_t)))", 9361397483653004976ull},
  {"umap(,prim(std::string),optional(,ut::E8))", 9361385307169062576ull},
  {"umap(,prim(std::string),optional(,ut::S0))", 9366865142968581808ull},
  {"umap(,prim(std::string),optional(,ut::V))", 9364651581697132208ull},
  {"umap(,prim(std::string),pair(,prim(int32_t),prim(std::string)))", 9368337134544830787ull},
  {"umap(,prim(std::string),pair(,ut::E8,prim(std::string)))", 9367211560868659523ull},
  {"umap(,prim(std::string),pair(,ut::S0,prim(std::string)))", 9361063413703393603ull},
  {"umap(,prim(std::string),pair(,ut::V,prim(std::string)))", 9363265569102739780ull},
  {"umap(,prim(std::string),prim(double))", 9369351407460198056ull},
  {"umap(,prim(std::string),prim(int32_t))", 9369351407460159144ull},
  {"umap(,prim(std::string),prim(std::string))", 9369351407460177576ull},
  {"umap(,prim(std::string),prim(uint8_t))", 9369351407460134568ull},
  {"umap(,prim(std::string),set(,prim(int32_t)))", 9369864178344870212ull},
  {"umap(,prim(std::string),set(,ut::E8))", 9360302157245724996ull},
  {"umap(,prim(std::string),set(,ut::S0))", 9360893884931543364ull},
  {"umap(,prim(std::string),set(,ut::V))", 9368077601179599172ull},
  {"umap(,prim(std::string),ut::E8)", 9368829387987685031ull},
  {"umap(,prim(std::string),ut::S0)", 9362309414850367154ull},
  {"umap(,prim(std::string),ut::V)", 9361425037302006095ull},
  {"umap(,prim(std::string),vector(,prim(int32_t)))", 9360166545757198661ull},
  {"umap(,prim(std::string),vector(,ut::E8))", 9369925807542851909ull},
  {"umap(,prim(std::string),vector(,ut::S0))", 9362774350816893253ull},
  {"umap(,prim(std::string),vector(,ut::V))", 9368867298349097285ull},
  {"umap(,prim(uint8_t),prim(double))", 9369351407460196680ull},
  {"umap(,prim(uint8_t),prim(int32_t))", 9369351407460157768ull},
  {"umap(,prim(uint8_t),prim(std::string))", 9369351407460176200ull},
  {"umap(,prim(uint8_t),prim(uint8_t))", 9369351407460133192ull},
  {"umap(,prim(uint8_t),ut::E8)", 9368829387987683655ull},
  {"umap(,prim(uint8_t),ut::S0)", 9362309414850365778ull},
  {"umap(,prim(uint8_t),ut::V)", 9361425037302007471ull},
  {"umap(,ut::E8,prim(double))", 9366567841015105480ull},
  {"umap(,ut::E8,prim(int32_t))", 9366567841015082952ull},
  {"umap(,ut::E8,prim(std::string))", 9366567841015101384ull},
  {"umap(,ut::E8,prim(uint8_t))", 9366567841015041992ull},
  {"umap(,ut::E8,ut::E8)", 9365949808713150407ull},
  {"umap(,ut::E8,ut::S0)", 9366392654927605714ull},
  {"umap(,ut::E8,ut::V)", 9367772353414602799ull},
  {"umap(,ut::S0,prim(double))", 9367407028754084296ull},
  {"umap(,ut::S0,prim(int32_t))", 9367407028754110920ull},
  {"umap(,ut::S0,prim(std::string))", 9367407028754088392ull},
  {"umap(,ut::S0,prim(uint8_t))", 9367407028754020808ull},
  {"umap(,ut::S0,ut::E8)", 9362700208656996807ull},
  {"umap(,ut::S0,ut::S0)", 9363052989431437778ull},
  {"umap(,ut::S0,ut::V)", 9368630099113825839ull},
  {"umap(,ut::V,prim(double))", 9360198906817054199ull},
  {"umap(,ut::V,prim(int32_t))", 9360198906817031671ull},
  {"umap(,ut::V,prim(std::string))", 9360198906817050103ull},
  {"umap(,ut::V,prim(uint8_t))", 9360198906817121783ull},
  {"umap(,ut::V,ut::E8)", 9367895858424655352ull},
  {"umap(,ut::V,ut::S0)", 9366876333604580845ull},
  {"umap(,ut::V,ut::V)", 9367818362024075792ull},
  {"uset(,H<prim(int32_t)>)", 9354481347077251378ull},
  {"uset(,H<ut::S0>)", 9359827025029905937ull},
  {"uset(,TD<ut::E8>)", 9357123653420212721ull},
  {"uset(,array(,prim(int32_t),2))", 9356627503694093689ull},
  {"uset(,array(,ut::E8,2))", 9356669592514534777ull},
  {"uset(,array(,ut::S0,2))", 9352011887996038520ull},
  {"uset(,array(,ut::V,2))", 9352360913608733848ull},
  {"uset(,map(,prim(std::string),prim(int32_t)))", 9353366007065973021ull},
  {"uset(,map(,prim(std::string),ut::E8))", 9358705033846843645ull},
  {"uset(,map(,prim(std::string),ut::S0))", 9351456487893254749ull},
  {"uset(,map(,prim(std::string),ut::V))", 9358443244713563645ull},
  {"uset(,optional(,prim(int32_t)))", 9357626310326418960ull},
  {"uset(,optional(,ut::E8))", 9357537264468426256ull},
  {"uset(,optional(,ut::S0))", 9357488013475003920ull},
  {"uset(,optional(,ut::V))", 9350927650088894960ull},
  {"uset(,pair(,prim(int32_t),prim(int32_t)))", 9354299896952306972ull},
  {"uset(,pair(,ut::E8,ut::E8))", 9355689617150362876ull},
  {"uset(,pair(,ut::S0,ut::S0))", 9354041816979451484ull},
  {"uset(,pair(,ut::V,ut::V))", 9350667727907702300ull},
  {"uset(,prim(bool))", 9359351407460113032ull},
  {"uset(,prim(char))", 9359351407460175560ull},
  {"uset(,prim(double))", 9359351407460197736ull},
  {"uset(,prim(float))", 9359351407460195720ull},
  {"uset(,prim(int16_t))", 9359351407460157416ull},
  {"uset(,prim(int32_t))", 9359351407460159432ull},
  {"uset(,prim(int64_t))", 9359351407460161448ull},
  {"uset(,prim(int8_t))", 9359351407460153352ull},
  {"uset(,prim(std::chrono::microseconds))", 9359351407460215880ull},
  {"uset(,prim(std::chrono::milliseconds))", 9359351407460217896ull},
  {"uset(,prim(std::string))", 9359351407460177576ull},
  {"uset(,prim(uint16_t))", 9359351407460135208ull},
  {"uset(,prim(uint32_t))", 9359351407460137224ull},
  {"uset(,prim(uint64_t))", 9359351407460139240ull},
  {"uset(,prim(uint8_t))", 9359351407460133192ull},
  {"uset(,set(,prim(int32_t)))", 9357225873910643995ull},
  {"uset(,set(,ut::E8))", 9354170823317570811ull},
  {"uset(,set(,ut::S0))", 9351984264439311963ull},
  {"uset(,set(,ut::V))", 9350106250666690075ull},
  {"uset(,umap(,prim(std::string),prim(int32_t)))", 9350037016401056000ull},
  {"uset(,umap(,prim(std::string),ut::E8))", 9353094906015901920ull},
  {"uset(,umap(,prim(std::string),ut::S0))", 9355130163989398111ull},
  {"uset(,umap(,prim(std::string),ut::V))", 9357557862731240959ull},
  {"uset(,uset(,prim(int32_t)))", 9351136338012716319ull},
  {"uset(,uset(,ut::E8))", 9356843711051580670ull},
  {"uset(,uset(,ut::S0))", 9353533222227783262ull},
  {"uset(,uset(,ut::V))", 9357766128784557598ull},
  {"uset(,ut::CV)", 9357711613171520944ull},
  {"uset(,ut::D0)", 9358185996597477329ull},
  {"uset(,ut::D1)", 9352554830010827922ull},
  {"uset(,ut::E64)", 9355996758549836999ull},
  {"uset(,ut::E8)", 9355949808713150407ull},
  {"uset(,ut::Empty)", 9350817239774682098ull},
  {"uset(,ut::OfTemplated)", 9356639872627998065ull},
  {"uset(,ut::Ping)", 9352312811237333170ull},
  {"uset(,ut::Pong)", 9354706478174587825ull},
  {"uset(,ut::Renamed)", 9353053550633954098ull},
  {"uset(,ut::S0)", 9353052989431437778ull},
  {"uset(,ut::Self)", 9352917214571144722ull},
  {"uset(,ut::SelfOther)", 9351854417630185969ull},
  {"uset(,ut::Tail)", 9351201628710042802ull},
  {"uset(,ut::V)", 9357818362024075792ull},
  {"uset(,ut::VN)", 9352838517698676080ull},
  {"uset(,ut::VS)", 9353403108757819536ull},
  {"uset(,vector(,prim(int32_t)))", 9357946851960978810ull},
  {"uset(,vector(,ut::E8))", 9357850299767684474ull},
  {"uset(,vector(,ut::S0))", 9358527966398434682ull},
  {"uset(,vector(,ut::V))", 9355430173572732058ull},
  {"ut::CV", 9223578117842949581ull},
  {"ut::D0", 9209766714047469985ull},
  {"ut::D1", 9205262752295176443ull},
  {"ut::E64", 9010000000565769209ull},
  {"ut::E8", 9010000003839168801ull},
  {"ut::Empty", 9200000002835747520ull},
  {"ut::OfTemplated", 9206080400634916596ull},
  {"ut::Ping", 9203857514261352538ull},
  {"ut::Pong", 9205866744691026626ull},
  {"ut::Renamed", 9201749777576724678ull},
  {"ut::Root", 9207498504484276840ull},
  {"ut::S0", 9201749777312917137ull},
  {"ut::Self", 9204251748702589679ull},
  {"ut::SelfOther", 9206235420163564112ull},
  {"ut::Tail", 9202468488289157498ull},
  {"ut::V", 9223892942466906416ull},
  {"ut::VN", 9227727054930460875ull},
  {"ut::VS", 9228685327486692260ull},
  {"ut::other::D0", 9204220788129280289ull},
  {"ut::other::D1", 9209103844932964603ull},
  {"ut::other::Empty", 9209103845253012223ull},
  {"ut::other::H_Z", 9205222825961194967ull},
  {"ut::other::S0", 9203077972550166161ull},
  {"ut::other::Self", 9203975140790670283ull},
  {"ut::other::V", 9224225487926204663ull},
  {"vector(,H<prim(int32_t)>)", 9311550359659545779ull},
  {"vector(,H<ut::S0>)", 9318628037702488443ull},
  {"vector(,TD<ut::E8>)", 9317978618539866243ull},
  {"vector(,array(,prim(int32_t),2))", 9311165936132558940ull},
  {"vector(,array(,ut::E8,2))", 9311166181839360092ull},
  {"vector(,array(,ut::S0,2))", 9313151684159253596ull},
  {"vector(,array(,ut::V,2))", 9316361664338154532ull},
  {"vector(,map(,prim(std::string),prim(int32_t)))", 9317834964843066692ull},
  {"vector(,map(,prim(std::string),ut::E8))", 9313658809063273788ull},
  {"vector(,map(,prim(std::string),ut::S0))", 9311499023964730772ull},
  {"vector(,map(,prim(std::string),ut::V))", 9314424003577842300ull},
  {"vector(,optional(,prim(int32_t)))", 9310478933725159803ull},
  {"vector(,optional(,ut::E8))", 9310479916552364411ull},
  {"vector(,optional(,ut::S0))", 9318421925831938427ull},
  {"vector(,optional(,ut::V))", 9313119615576780931ull},
  {"vector(,pair(,prim(int32_t),prim(int32_t)))", 9317834964843068996ull},
  {"vector(,pair(,ut::E8,ut::E8))", 9310622174866996796ull},
  {"vector(,pair(,ut::S0,ut::S0))", 9317447620613295764ull},
  {"vector(,pair(,ut::V,ut::V))", 9315570601354399876ull},
  {"vector(,prim(bool))", 9319767778871345243ull},
  {"vector(,prim(char))", 9319767778871345483ull},
  {"vector(,prim(double))", 9319767778871345571ull},
  {"vector(,prim(float))", 9319767778871345563ull},
  {"vector(,prim(int16_t))", 9319767778871345411ull},
  {"vector(,prim(int32_t))", 9319767778871345419ull},
  {"vector(,prim(int64_t))", 9319767778871345427ull},
  {"vector(,prim(int8_t))", 9319767778871345403ull},
  {"vector(,prim(std::chrono::microseconds))", 9319767778871345643ull},
  {"vector(,prim(std::chrono::milliseconds))", 9319767778871345651ull},
  {"vector(,prim(std::string))", 9319767778871345491ull},
  {"vector(,prim(uint16_t))", 9319767778871345331ull},
  {"vector(,prim(uint32_t))", 9319767778871345339ull},
  {"vector(,prim(uint64_t))", 9319767778871345347ull},
  {"vector(,prim(uint8_t))", 9319767778871345323ull},
  {"vector(,set(,prim(int32_t)))", 9317834964843068996ull},
  {"vector(,set(,ut::E8))", 9310622174866996796ull},
  {"vector(,set(,ut::S0))", 9317447620613295764ull},
  {"vector(,set(,ut::V))", 9315570601354399876ull},
  {"vector(,umap(,prim(std::string),prim(int32_t)))", 9317834964843066692ull},
  {"vector(,umap(,prim(std::string),ut::E8))", 9313658809063273788ull},
  {"vector(,umap(,prim(std::string),ut::S0))", 9311499023964730772ull},
  {"vector(,umap(,prim(std::string),ut::V))", 9314424003577842300ull},
  {"vector(,uset(,prim(int32_t)))", 9317834964843068996ull},
  {"vector(,uset(,ut::E8))", 9310622174866996796ull},
  {"vector(,uset(,ut::S0))", 9317447620613295764ull},
  {"vector(,uset(,ut::V))", 9315570601354399876ull},
  {"vector(,ut::CV)", 9311648647905390188ull},
  {"vector(,ut::D0)", 9317901491251105035ull},
  {"vector(,ut::D1)", 9311869797232756699ull},
  {"vector(,ut::E64)", 9319767783397498827ull},
  {"vector(,ut::E8)", 9319767809584695563ull},
  {"vector(,ut::Empty)", 9319767801557325315ull},
  {"vector(,ut::OfTemplated)", 9318410983950677923ull},
  {"vector(,ut::Ping)", 9319413311895863987ull},
  {"vector(,ut::Pong)", 9319085631189307707ull},
  {"vector(,ut::Renamed)", 9313765999485142579ull},
  {"vector(,ut::S0)", 9313765997374682251ull},
  {"vector(,ut::Self)", 9319964859032612523ull},
  {"vector(,ut::SelfOther)", 9315360356728154963ull},
  {"vector(,ut::Tail)", 9318951189213902963ull},
  {"vector(,ut::V)", 9314167244897044868ull},
  {"vector(,ut::VN)", 9314840144605480540ull},
  {"vector(,ut::VS)", 9312506325055331620ull},
  {"vector(,vector(,prim(int32_t)))", 9311165936132556892ull},
  {"vector(,vector(,ut::E8))", 9311166181839358044ull},
  {"vector(,vector(,ut::S0))", 9313151684159251548ull},
  {"vector(,vector(,ut::V))", 9316361664338152484ull},
};
