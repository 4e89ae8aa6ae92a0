------------------------------ MODULE Builtins ------------------------------
(* The plugin's built-in colours, in its two variants (red + 256 green + 65536 blue). *)
EXTENDS TLC
BuiltinRows == {
  <<"ACF_Via_CFL", <<7585362>>, <<7585362>>>>,
  <<"Active_Map", <<8870470>>, <<3845830>>>>,
  <<"Active_Map_Type_1", <<65793>>, <<10770263>>>>,
  <<"Active_Map_Type_2", <<5921370>>, <<4891216>>>>,
  <<"Active_Map_Type_3", <<7982556>>, <<11842739>>>>,
  <<"Active_Map_Type_4", <<8733305>>, <<1193416>>>>,
  <<"Active_Map_Type_5", <<9987635>>, <<3845830>>>>,
  <<"Active_Map_Type_6", <<3818866>>, <<3818866>>>>,
  <<"Active_Map_Type_7", <<791690>>, <<791690>>>>,
  <<"Active_Map_Type_8", <<4569795>>, <<4569795>>>>,
  <<"Active_Map_Type_9", <<1670620>>, <<1670620>>>>,
  <<"Active_Map_Type_10", <<16777215>>, <<16777215>>>>,
  <<"Active_Map_Type_11", <<3245619>>, <<3245619>>>>,
  <<"Active_Map_Type_12", <<16737833>>, <<16737833>>>>,
  <<"Active_Map_Type_13", <<6594660>>, <<6594660>>>>,
  <<"Active_Map_Type_14", <<15513741>>, <<15513741>>>>,
  <<"Active_Map_Type_15", <<1955299>>, <<1955299>>>>,
  <<"Active_Map_Type_16", <<3947580>>, <<3947580>>>>,
  <<"Active_Map_Type_17", <<10197915>>, <<10197915>>>>,
  <<"Active_Map_Type_18", <<1252023>>, <<1252023>>>>,
  <<"Active_Map_Type_19", <<4283256>>, <<4283256>>>>,
  <<"Active_Map_Type_20", <<3818890>>, <<3818890>>>>,
  <<"Active_RD_Infill_Map", <<10526885>>, <<5921370>>>>,
  <<"Active_RD_Map", <<857212>>, <<2828694>>>>,
  <<"Active_Sector", <<9804441>>, <<4078132>>>>,
  <<"Active_Text_Map", <<13882322>>, <<12500670>>>>,
  <<"AIW_Intrusion", <<39167>>, <<39167>>>>,
  <<"Arm", <<6381921>>, <<6381921>>>>,
  <<"Assumed", <<65537>>, <<14474460>>>>,
  <<"Background", <<10265506>>, <<5591114>>>>,
  <<"Border", <<3420979>>, <<3420979>>>>,
  <<"BottomShadow", <<4342338>>, <<4605510>>>>,
  <<"CARD_Mark_All", <<>>, <<8224255>>>>,
  <<"CARD_Mark_Own", <<>>, <<8223999>>>>,
  <<"CARD_Min_Sep", <<13881297>>, <<4013373>>>>,
  <<"CARD_Reminder", <<>>, <<13035434>>>>,
  <<"CARD_Symbol_Fg", <<256>>, <<723465>>>>,
  <<"CARD_Time_Vector", <<6250335>>, <<12969899>>>>,
  <<"COL_Above_Threshold", <<>>, <<2744815>>>>,
  <<"COL_Under_Threshold", <<>>, <<14539996>>>>,
  <<"Concerned", <<8126844>>, <<7248239>>>>,
  <<"Conflict_Ack", <<6447726>>, <<7765895>>>>,
  <<"Conflict_Ack_FL", <<6447726>>, <<7700359>>>>,
  <<"Coordination", <<12124160>>, <<9885590>>>>,
  <<"CPDLC_Controller_Late", <<7135723>>, <<2576042>>>>,
  <<"CPDLC_Discarded", <<9276813>>, <<8421504>>>>,
  <<"CPDLC_DM_Request", <<16710861>>, <<16448030>>>>,
  <<"CPDLC_Failed", <<592041>>, <<2576042>>>>,
  <<"CPDLC_Pilot_Late", <<6333686>>, <<2641578>>>>,
  <<"CPDLC_Standby", <<5765290>>, <<2576042>>>>,
  <<"CPDLC_UM_Clearance", <<131586>>, <<16448286>>>>,
  <<"CPDLC_Unable", <<6333687>>, <<2575786>>>>,
  <<"CPDLC_Urgency", <<7136749>>, <<1645026>>>>,
  <<"Datalink_Logged_On", <<7895160>>, <<9539985>>>>,
  <<"Deselected", <<8355711>>, <<6315871>>>>,
  <<"East_NAT_Map", <<111796>>, <<111796>>>>,
  <<"Field_Highlight", <<13881297>>, <<4802632>>>>,
  <<"Flight_Highlight", <<12172990>>, <<2959652>>>>,
  <<"Flight_Leg", <<16776397>>, <<12969898>>>>,
  <<"Foreground", <<256>>, <<13158600>>>>,
  <<"FPLSEP_Tool_1", <<3058431>>, <<>>>>,
  <<"FPLSEP_Tool_2", <<31436>>, <<>>>>,
  <<"FPLSEP_Tool_3", <<4965375>>, <<>>>>,
  <<"FPLSEP_Tool_4", <<102367>>, <<>>>>,
  <<"FPLSEP_Tool_5", <<26282>>, <<>>>>,
  <<"Freq_Indicator", <<13881297>>, <<16746610>>>>,
  <<"Global_Menu_Highlight", <<13882323>>, <<14394625>>>>,
  <<"Heading_Vector", <<13158600>>, <<12970154>>>>,
  <<"Info_Coord", <<6333684>>, <<16776961>>>>,
  <<"Information", <<5700009>>, <<2675240>>>>,
  <<"Information_FL", <<116736>>, <<2749737>>>>,
  <<"Informed", <<1666329>>, <<11500975>>>>,
  <<"Informed_2", <<1666329>>, <<12821352>>>>,
  <<"Informed_3", <<1666329>>, <<7109779>>>>,
  <<"LatLong_Info", <<>>, <<12969897>>>>,
  <<"Map_1", <<8733305>>, <<6250320>>>>,
  <<"Map_2", <<7369587>>, <<2894892>>>>,
  <<"Map_3", <<10219989>>, <<7302244>>>>,
  <<"Map_4", <<10331300>>, <<4078132>>>>,
  <<"Map_Auto_Label", <<7369587>>, <<10526623>>>>,
  <<"Map_Auto_Symbol", <<7369587>>, <<10526623>>>>,
  <<"Map_Border", <<7697781>>, <<8881798>>>>,
  <<"Map_Hotspot", <<4606024>>, <<13142871>>>>,
  <<"Map_Info", <<14211545>>, <<9868950>>>>,
  <<"Map_Land", <<9078149>>, <<35980>>>>,
  <<"Map_Symbol", <<3618615>>, <<9208430>>>>,
  <<"MQDM", <<>>, <<7572635>>>>,
  <<"Negotiation_In", <<>>, <<11501020>>>>,
  <<"Negotiation_Out", <<>>, <<11501020>>>>,
  <<"Normal_Load", <<78337>>, <<5131083>>>>,
  <<"Oceanic_Level_Highlight", <<2810352>>, <<2744816>>>>,
  <<"Overflown", <<5700009>>, <<9595218>>>>,
  <<"Overload", <<98559>>, <<1645280>>>>,
  <<"Potential", <<14166057>>, <<14166057>>>>,
  <<"Potential_FL", <<14166312>>, <<14166312>>>>,
  <<"Preactive_Map", <<7369588>>, <<8424090>>>>,
  <<"Preactive_Text_Map", <<13947858>>, <<9081755>>>>,
  <<"Predisplay_Map", <<12500670>>, <<8553135>>>>,
  <<"Proposition_Accepted", <<65535>>, <<65535>>>>,
  <<"Proposition_In", <<16777214>>, <<11501020>>>>,
  <<"Proposition_Out", <<16777214>>, <<11501020>>>>,
  <<"QDM", <<13158600>>, <<10731223>>>>,
  <<"Radar_Win_Bg", <<10331300>>, <<4999491>>>>,
  <<"Raw_Video1", <<7558455>>, <<7558455>>>>,
  <<"Raw_Video2", <<7229490>>, <<7229490>>>>,
  <<"Raw_Video3", <<6900525>>, <<6900525>>>>,
  <<"Raw_Video4", <<6571560>>, <<6571560>>>>,
  <<"Raw_Video5", <<6242595>>, <<6242595>>>>,
  <<"Raw_Video6", <<5913630>>, <<5913630>>>>,
  <<"Raw_Video7", <<5584665>>, <<5584665>>>>,
  <<"Redundant", <<3891356>>, <<5868729>>>>,
  <<"Reminder", <<>>, <<14782885>>>>,
  <<"Runway", <<10537160>>, <<4704372>>>>,
  <<"Rwy_App_Line_Inuse", <<14474460>>, <<7585362>>>>,
  <<"Rwy_App_Line_Not_Inuse", <<7982556>>, <<4622215>>>>,
  <<"Rwy_Locked", <<8126844>>, <<2740777>>>>,
  <<"Select", <<6381921>>, <<9885591>>>>,
  <<"Selected", <<13816530>>, <<9730365>>>>,
  <<"Selected_Group", <<13816546>>, <<>>>>,
  <<"Selected_Period", <<4597980>>, <<2752511>>>>,
  <<"SEP_Tool_1", <<16776397>>, <<15391129>>>>,
  <<"SEP_Tool_2", <<15127065>>, <<12098047>>>>,
  <<"SEP_Tool_3", <<16446840>>, <<9425407>>>>,
  <<"SEP_Tool_4", <<16052409>>, <<13910213>>>>,
  <<"SEP_Tool_5", <<13808665>>, <<16747660>>>>,
  <<"SEP_Tool_6", <<>>, <<9218655>>>>,
  <<"SEP_Tool_7", <<>>, <<5604025>>>>,
  <<"SEP_Vert", <<>>, <<8885920>>>>,
  <<"Sid_Star_Allocation", <<8126844>>, <<1030415>>>>,
  <<"SMW_Highlight", <<16777215>>, <<16777213>>>>,
  <<"SMW_Level_Band", <<5700009>>, <<7524632>>>>,
  <<"SMW_Overflight", <<7136492>>, <<104702>>>>,
  <<"SMW_Overlap", <<526248>>, <<1645024>>>>,
  <<"SMW_Overlap_Box", <<256>>, <<13619151>>>>,
  <<"SMW_Overshoot", <<7136492>>, <<2679023>>>>,
  <<"Standard_Line_RDF", <<5015131>>, <<5015131>>>>,
  <<"Standard_RDF", <<1248267>>, <<1248267>>>>,
  <<"Suite_Highlight", <<7136492>>, <<16768000>>>>,
  <<"System_Calculated_TOC", <<>>, <<12969642>>>>,
  <<"System_Calculated_TOD", <<>>, <<12969898>>>>,
  <<"Temp_Track_Highlight", <<14459904>>, <<14459904>>>>,
  <<"Text_Notes", <<0>>, <<255>>>>,
  <<"TopShadow", <<8553090>>, <<10460827>>>>,
  <<"Track_Default", <<12369084>>, <<13816530>>>>,
  <<"Track_Highlight", <<16777215>>, <<14394624>>>>,
  <<"Trough", <<6381921>>, <<6382433>>>>,
  <<"TSA_Active", <<7917020>>, <<12814941>>>>,
  <<"TSA_Border_Highlight", <<16776959>>, <<16776959>>>>,
  <<"TSA_Filter", <<16776703>>, <<>>>>,
  <<"TSA_Preactive", <<5263440>>, <<9145988>>>>,
  <<"Unconcerned", <<6447726>>, <<7766151>>>>,
  <<"Unknown", <<7136493>>, <<2810095>>>>,
  <<"Urgency", <<8428>>, <<1710561>>>>,
  <<"Urgency_FL", <<68518>>, <<1645025>>>>,
  <<"VAW_Profile", <<15780994>>, <<11324056>>>>,
  <<"VAW_Sector_Limits", <<12172990>>, <<1990545>>>>,
  <<"VAW_Track_Position", <<12172990>>, <<14408667>>>>,
  <<"VFR", <<655726>>, <<655726>>>>,
  <<"Warning", <<7136492>>, <<2744816>>>>,
  <<"Warning_FL", <<7136491>>, <<2745072>>>>,
  <<"Weather_Map", <<6447971>>, <<5636096>>>>,
  <<"West_NAT_Map", <<16747560>>, <<16747560>>>>,
  <<"WM_Active_Fg", <<15197926>>, <<16711423>>>>,
  <<"WM_Bg", <<9540499>>, <<6906980>>>>,
  <<"WM_Border", <<3289650>>, <<6512472>>>>,
  <<"WM_Fg", <<65793>>, <<11909300>>>>,
  <<"WM_Frame", <<257>>, <<6512472>>>>
}
BuiltinNames == {r[1] : r \in BuiltinRows}
Builtin == [n \in BuiltinNames |-> LET r == CHOOSE x \in BuiltinRows : x[1] = n IN [plain |-> r[2], coop |-> r[3]]]
=============================================================================
