// Generated by tools/mkdict.sh: the published dictionaries. DO NOT EDIT.
package main

type dictEntry struct{ term, canonical string }

var dictTags = []dictEntry{
	{".ajax", "ajax"},
	{".bash profile", "bash"},
	{".bashrc", "bash"},
	{".bat", "batch-file"},
	{".cs file", "c#"},
	{".cshtml", "razor"},
	{".csv", "csv"},
	{".dll", "dll"},
	{".each", "each"},
	{".htaccess", ".htaccess"},
	{".jar", "jar"},
	{".java", "java"},
	{".js", "javascript"},
	{".net", ".net"},
	{".net 3.5", ".net-3.5"},
	{".net 4.0", ".net-4.0"},
	{".net 4.5", ".net-4.5"},
	{".net 4.5.1", ".net-4.5"},
	{".net 4.5.2", ".net-4.5"},
	{".net assembly", ".net-assembly"},
	{".net async await", "async-await"},
	{".net cf", "compact-framework"},
	{".net core", ".net-core"},
	{".net framework", ".net"},
	{".net framework 3.5", ".net-3.5"},
	{".net framework 4.0", ".net-4.0"},
	{".net generics", "generics"},
	{".net4", ".net-4.0"},
	{".war", "war"},
	{"10g", "oracle10g"},
	{"11g", "oracle11g"},
	{"2d", "2d"},
	{"2d array", "multidimensional-array"},
	{"3d", "3d"},
	{"3d array", "multidimensional-array"},
	{"3d graphics", "3d"},
	{"404", "http-status-code-404"},
	{"64 bit", "64-bit"},
	{"64bit", "64-bit"},
	{"80x86", "x86"},
	{"a11y", "accessibility"},
	{"absolute positioning", "css-position"},
	{"abstract class", "abstract-class"},
	{"abstract classes", "abstract-class"},
	{"accdb", "ms-access"},
	{"access vba", "access-vba"},
	{"accessibility", "accessibility"},
	{"accordion", "accordion"},
	{"acegi", "spring-security"},
	{"acf", "advanced-custom-fields"},
	{"action", "action"},
	{"actionbar", "android-actionbar"},
	{"actionbarsherlock", "actionbarsherlock"},
	{"actionlistener", "actionlistener"},
	{"actions", "action"},
	{"actionscript", "actionscript"},
	{"actionscript 3", "actionscript-3"},
	{"active directory", "active-directory"},
	{"active record query", "activerecord"},
	{"activeadmin", "activeadmin"},
	{"activemq", "activemq"},
	{"activerecord", "activerecord"},
	{"activerecord relation", "activerecord"},
	{"activex", "activex"},
	{"activity", "android-activity"},
	{"adapter", "adapter"},
	{"adb", "adb"},
	{"add", "add"},
	{"addclass", "jquery"},
	{"admin", "admin"},
	{"admob", "admob"},
	{"ado.net", "ado.net"},
	{"adobe", "adobe"},
	{"adobe air", "air"},
	{"adobe flash", "flash"},
	{"adobe flex", "apache-flex"},
	{"adobe flex 4", "flex4"},
	{"ads", "ads"},
	{"advanced custom fields", "advanced-custom-fields"},
	{"advertisement", "ads"},
	{"advertising", "ads"},
	{"aem", "aem"},
	{"aes", "aes"},
	{"afnetworking", "afnetworking"},
	{"aggregate", "aggregate"},
	{"aggregate functions", "aggregate-functions"},
	{"aggregation framework", "aggregation-framework"},
	{"ahk", "autohotkey"},
	{"ai", "artificial-intelligence"},
	{"air", "air"},
	{"airflow", "airflow"},
	{"ajax", "ajax"},
	{"ajax request", "ajax"},
	{"akka", "akka"},
	{"alamofire", "alamofire"},
	{"alarmmanager", "alarmmanager"},
	{"alert", "alert"},
	{"alertdialog", "android-alertdialog"},
	{"alfresco", "alfresco"},
	{"algorithm", "algorithm"},
	{"algorithm design", "algorithm"},
	{"algorithms", "algorithm"},
	{"alias", "alias"},
	{"align", "alignment"},
	{"alignment", "alignment"},
	{"alternate stylesheets", "css"},
	{"amazon", "amazon"},
	{"amazon cloudformation", "amazon-cloudformation"},
	{"amazon cloudfront", "amazon-cloudfront"},
	{"amazon cognito", "amazon-cognito"},
	{"amazon dynamodb", "amazon-dynamodb"},
	{"amazon ec2", "amazon-ec2"},
	{"amazon elastic beanstalk", "amazon-elastic-beanstalk"},
	{"amazon lambda", "aws-lambda"},
	{"amazon rds", "amazon-rds"},
	{"amazon redshift", "amazon-redshift"},
	{"amazon s3", "amazon-s3"},
	{"amazon sdk", "aws-sdk"},
	{"amazon web services", "amazon-web-services"},
	{"amd64", "x86-64"},
	{"anaconda", "anaconda"},
	{"analysis services", "ssas"},
	{"analytics", "analytics"},
	{"anchor", "anchor"},
	{"android", "android"},
	{"android actionbar", "android-actionbar"},
	{"android activity", "android-activity"},
	{"android alertdialog", "android-alertdialog"},
	{"android animation", "android-animation"},
	{"android api", "android"},
	{"android apk", "apk"},
	{"android application", "android"},
	{"android arrayadapter", "android-arrayadapter"},
	{"android asynctask", "android-asynctask"},
	{"android broadcastreceiver", "broadcastreceiver"},
	{"android camera", "android-camera"},
	{"android canvas", "android-canvas"},
	{"android compat lib", "android-support-library"},
	{"android contentprovider", "android-contentprovider"},
	{"android custom view", "android-custom-view"},
	{"android debug bridge", "adb"},
	{"android device", "android"},
	{"android edittext", "android-edittext"},
	{"android emulator", "android-emulator"},
	{"android fragments", "android-fragments"},
	{"android framework", "android"},
	{"android gcm", "google-cloud-messaging"},
	{"android gradle", "android-gradle-plugin"},
	{"android gradle plugin", "android-gradle-plugin"},
	{"android imageview", "android-imageview"},
	{"android intent", "android-intent"},
	{"android intent flags", "android-intent"},
	{"android layout", "android-layout"},
	{"android layout xml", "android-layout"},
	{"android linearlayout", "android-linearlayout"},
	{"android listview", "android-listview"},
	{"android manifest", "android-manifest"},
	{"android market", "google-play"},
	{"android mediaplayer", "android-mediaplayer"},
	{"android mobile", "android"},
	{"android navigation drawer", "navigation-drawer"},
	{"android ndk", "android-ndk"},
	{"android notifications", "android-notifications"},
	{"android performance", "performance"},
	{"android permissions", "android-permissions"},
	{"android proguard", "proguard"},
	{"android realm", "realm"},
	{"android recyclerview", "android-recyclerview"},
	{"android room", "android-room"},
	{"android sdk", "android"},
	{"android service", "android-service"},
	{"android sharedpreferences", "sharedpreferences"},
	{"android spinner", "android-spinner"},
	{"android sqlite", "android-sqlite"},
	{"android studio", "android-studio"},
	{"android support library", "android-support-library"},
	{"android textview", "textview"},
	{"android ui", "android"},
	{"android view", "android-view"},
	{"android viewpager", "android-viewpager"},
	{"android volley", "android-volley"},
	{"android webview", "android-webview"},
	{"android widget", "android-widget"},
	{"androidstudio settings", "android-studio"},
	{"angular", "angular"},
	{"angular cli", "angular-cli"},
	{"angular material", "angular-material"},
	{"angular ui bootstrap", "angular-ui-bootstrap"},
	{"angular ui router", "angular-ui-router"},
	{"angular.js", "angularjs"},
	{"angular2", "angular"},
	{"angular2 routing", "angular2-routing"},
	{"angular4", "angular"},
	{"angular5", "angular5"},
	{"angular6", "angular6"},
	{"angular7", "angular7"},
	{"angular8", "angular8"},
	{"angularjs", "angularjs"},
	{"angularjs directive", "angularjs-directive"},
	{"angularjs ng repeat", "angularjs-ng-repeat"},
	{"angularjs scope", "angularjs-scope"},
	{"angularjs ui router", "angular-ui-router"},
	{"angularjs2", "angular"},
	{"animate", "jquery-animate"},
	{"animated", "animation"},
	{"animation", "animation"},
	{"animations", "animation"},
	{"annotation", "annotations"},
	{"annotations", "annotations"},
	{"ansible", "ansible"},
	{"ansible playbook", "ansible"},
	{"ant", "ant"},
	{"antlr", "antlr"},
	{"aop", "aop"},
	{"apache", "apache"},
	{"apache airflow", "airflow"},
	{"apache ant", "ant"},
	{"apache camel", "apache-camel"},
	{"apache cassandra", "cassandra"},
	{"apache cordova", "cordova"},
	{"apache cxf", "cxf"},
	{"apache flex", "apache-flex"},
	{"apache flink", "apache-flink"},
	{"apache hadoop", "hadoop"},
	{"apache hive", "hive"},
	{"apache jmeter", "jmeter"},
	{"apache kafka", "apache-kafka"},
	{"apache nifi", "apache-nifi"},
	{"apache pig", "apache-pig"},
	{"apache poi", "apache-poi"},
	{"apache regexp", "regex"},
	{"apache solr", "solr"},
	{"apache spark", "apache-spark"},
	{"apache spark sql", "apache-spark-sql"},
	{"apache tomcat", "tomcat"},
	{"apache zookeeper", "apache-zookeeper"},
	{"apache2", "apache2"},
	{"api", "api"},
	{"api.ai", "dialogflow"},
	{"apis", "api"},
	{"apk", "apk"},
	{"apns", "apple-push-notifications"},
	{"app store", "app-store"},
	{"app store connect", "app-store-connect"},
	{"appc", "appcelerator"},
	{"appcelerator", "appcelerator"},
	{"appcrash", "crash"},
	{"append", "append"},
	{"appendto", "append"},
	{"appengine", "google-app-engine"},
	{"appium", "appium"},
	{"apple ios", "ios"},
	{"apple push notifications", "apple-push-notifications"},
	{"applescript", "applescript"},
	{"applet", "applet"},
	{"applets", "applet"},
	{"application architecture", "architecture"},
	{"application performance", "performance"},
	{"application singleton", "singleton"},
	{"apply", "apply"},
	{"appstoreconnect", "app-store-connect"},
	{"arc", "automatic-ref-counting"},
	{"architecture", "architecture"},
	{"arduino", "arduino"},
	{"argument", "arguments"},
	{"argument passing", "parameter-passing"},
	{"arguments", "arguments"},
	{"arithmetic", "math"},
	{"arm", "arm"},
	{"array", "arrays"},
	{"array of objects", "arrays"},
	{"array slice", "slice"},
	{"array sorting", "sorting"},
	{"arrayadapter", "android-arrayadapter"},
	{"arraycopy", "arrays"},
	{"arraylist", "arraylist"},
	{"arrays", "arrays"},
	{"artificial intelligence", "artificial-intelligence"},
	{"as3", "actionscript-3"},
	{"as3 api", "actionscript-3"},
	{"ascii", "ascii"},
	{"asm", "assembly"},
	{"asp classic", "asp-classic"},
	{"asp mvc", "asp.net-mvc"},
	{"asp net", "asp.net"},
	{"asp net core", "asp.net-core"},
	{"asp net mvc", "asp.net-mvc"},
	{"asp net mvc2", "asp.net-mvc-2"},
	{"asp.mvc", "asp.net-mvc"},
	{"asp.net", "asp.net"},
	{"asp.net 5", "asp.net-core"},
	{"asp.net ajax", "asp.net-ajax"},
	{"asp.net core", "asp.net-core"},
	{"asp.net core 2.0", "asp.net-core-2.0"},
	{"asp.net core mvc", "asp.net-core-mvc"},
	{"asp.net core webapi", "asp.net-core-webapi"},
	{"asp.net identity", "asp.net-identity"},
	{"asp.net membership", "asp.net-membership"},
	{"asp.net mvc", "asp.net-mvc"},
	{"asp.net mvc 2", "asp.net-mvc-2"},
	{"asp.net mvc 3", "asp.net-mvc-3"},
	{"asp.net mvc 3 validation", "asp.net-mvc-3"},
	{"asp.net mvc 4", "asp.net-mvc-4"},
	{"asp.net mvc 5", "asp.net-mvc-5"},
	{"asp.net mvc 6", "asp.net-core-mvc"},
	{"asp.net mvc routing", "asp.net-mvc-routing"},
	{"asp.net mvc2", "asp.net-mvc-2"},
	{"asp.net razor pages", "razor"},
	{"asp.net vnext", "asp.net-core"},
	{"asp.net web api", "asp.net-web-api"},
	{"asp.net web api2", "asp.net-web-api2"},
	{"asp.net webforms", "webforms"},
	{"asp.net website", "asp.net"},
	{"asp.net.mvc", "asp.net-mvc"},
	{"aspdotnet", "asp.net"},
	{"aspect oriented", "aop"},
	{"aspnet core", "asp.net-core"},
	{"aspnet identity", "asp.net-identity"},
	{"aspnet mvc", "asp.net-mvc"},
	{"aspnet.mvc", "asp.net-mvc"},
	{"aspx", "asp.net"},
	{"assembler", "assembly"},
	{"assembly", "assembly"},
	{"assembly language", "assembly"},
	{"asset", "assets"},
	{"asset pipeline", "asset-pipeline"},
	{"assets", "assets"},
	{"assets pipeline", "asset-pipeline"},
	{"assignment", "variable-assignment"},
	{"association", "associations"},
	{"associations", "associations"},
	{"asterisk", "asterisk"},
	{"asymptotic complexity", "complexity-theory"},
	{"async", "asynchronous"},
	{"async await", "async-await"},
	{"async ctp", "async-await"},
	{"asynchronous", "asynchronous"},
	{"asynchronous processing", "asynchronous"},
	{"asynchronously", "asynchronous"},
	{"asynctask", "android-asynctask"},
	{"atom editor", "atom-editor"},
	{"atscript", "typescript"},
	{"attribute", "attributes"},
	{"attributes", "attributes"},
	{"audio", "audio"},
	{"augmented reality", "augmented-reality"},
	{"aurelia", "aurelia"},
	{"aurelia binding", "aurelia"},
	{"aurelia bundling", "aurelia"},
	{"aurelia event aggregator", "aurelia"},
	{"aurelia form", "aurelia"},
	{"aurelia framework", "aurelia"},
	{"aurelia navigation", "aurelia"},
	{"aurelia router", "aurelia"},
	{"aurelia templating router", "aurelia"},
	{"aurelia testing", "aurelia"},
	{"aurelia ux", "aurelia"},
	{"aurelia validation", "aurelia"},
	{"auth", "authentication"},
	{"authenticate", "authentication"},
	{"authentication", "authentication"},
	{"authorisation", "authorization"},
	{"authorization", "authorization"},
	{"autocomplete", "autocomplete"},
	{"autocompleter", "autocomplete"},
	{"autocompletion", "autocomplete"},
	{"autofac", "autofac"},
	{"autohotkey", "autohotkey"},
	{"autolayout", "autolayout"},
	{"automapper", "automapper"},
	{"automated testing", "automated-tests"},
	{"automated tests", "automated-tests"},
	{"automatic ref counting", "automatic-ref-counting"},
	{"automation", "automation"},
	{"average", "average"},
	{"avfoundation", "avfoundation"},
	{"avg", "average"},
	{"avplayer", "avplayer"},
	{"await", "async-await"},
	{"awk", "awk"},
	{"awk formatting", "awk"},
	{"aws", "amazon-web-services"},
	{"aws api gateway", "aws-api-gateway"},
	{"aws cloudformation", "amazon-cloudformation"},
	{"aws cloudfront", "amazon-cloudfront"},
	{"aws cognito", "amazon-cognito"},
	{"aws ec2", "amazon-ec2"},
	{"aws elasticbeanstalk", "amazon-elastic-beanstalk"},
	{"aws lambda", "aws-lambda"},
	{"aws rds", "amazon-rds"},
	{"aws redshift", "amazon-redshift"},
	{"aws s3", "amazon-s3"},
	{"aws sdk", "aws-sdk"},
	{"awt", "awt"},
	{"axios", "axios"},
	{"azure", "azure"},
	{"azure active directory", "azure-active-directory"},
	{"azure app service", "azure-web-sites"},
	{"azure cosmosdb", "azure-cosmosdb"},
	{"azure devops", "azure-devops"},
	{"azure documentdb", "azure-cosmosdb"},
	{"azure functions", "azure-functions"},
	{"azure pipelines", "azure-pipelines"},
	{"azure sql database", "azure-sql-database"},
	{"azure storage", "azure-storage"},
	{"azure storage blobs", "azure-storage-blobs"},
	{"azure web apps", "azure-web-sites"},
	{"azure web sites", "azure-web-sites"},
	{"azuread", "azure-active-directory"},
	{"babel", "babel"},
	{"babeljs", "babeljs"},
	{"backbone", "backbone.js"},
	{"backbone.js", "backbone.js"},
	{"backbonejs", "backbone.js"},
	{"backend", "backend"},
	{"background", "background"},
	{"background image", "background-image"},
	{"backgroundworker", "backgroundworker"},
	{"backup", "backup"},
	{"bar chart", "bar-chart"},
	{"bar graph", "bar-chart"},
	{"barplot", "bar-chart"},
	{"base64", "base64"},
	{"bash", "bash"},
	{"bash alias", "bash"},
	{"bash function", "bash"},
	{"bash script", "bash"},
	{"bash variables", "bash"},
	{"bashrc", "bash"},
	{"bat", "batch-file"},
	{"batch", "batch-file"},
	{"batch file", "batch-file"},
	{"batch files", "batch-file"},
	{"batch process", "batch-processing"},
	{"batch processing", "batch-processing"},
	{"batch script", "batch-file"},
	{"bean", "javabeans"},
	{"beans", "javabeans"},
	{"beanstalk", "amazon-elastic-beanstalk"},
	{"beautifulsoup", "beautifulsoup"},
	{"big o", "big-o"},
	{"big theta", "big-o"},
	{"bigdata", "bigdata"},
	{"bigquery", "google-bigquery"},
	{"bigquery ml", "google-bigquery"},
	{"bigquery standard sql", "google-bigquery"},
	{"binary", "binary"},
	{"binary number", "binary"},
	{"binary search tree", "binary-search-tree"},
	{"binary search trees", "binary-search-tree"},
	{"binary system", "binary"},
	{"binary tree", "binary-tree"},
	{"binary trees", "binary-tree"},
	{"bind", "bind"},
	{"binding", "binding"},
	{"bindings", "binding"},
	{"bit fiddling", "bit-manipulation"},
	{"bit manipulation", "bit-manipulation"},
	{"bit twiddling", "bit-manipulation"},
	{"bitbucket", "bitbucket"},
	{"bitmap", "bitmap"},
	{"bitwise", "bit-manipulation"},
	{"biztalk", "biztalk"},
	{"blackberry", "blackberry"},
	{"ble", "bluetooth-lowenergy"},
	{"blob", "blob"},
	{"blobs", "blob"},
	{"block", "block"},
	{"blockchain", "blockchain"},
	{"blocks", "block"},
	{"bluemix", "ibm-cloud"},
	{"bluetooth", "bluetooth"},
	{"bluetooth lowenergy", "bluetooth-lowenergy"},
	{"bokeh", "bokeh"},
	{"bool", "boolean"},
	{"boolean", "boolean"},
	{"boost", "boost"},
	{"boost asio", "boost-asio"},
	{"bootstrap 4", "bootstrap-4"},
	{"bootstrap framework", "twitter-bootstrap"},
	{"bootstrap modal", "bootstrap-modal"},
	{"border", "border"},
	{"borders", "border"},
	{"bot", "bots"},
	{"botbuilder", "botframework"},
	{"botconnector", "botframework"},
	{"botframework", "botframework"},
	{"boto3", "boto3"},
	{"bots", "bots"},
	{"bourne shell", "sh"},
	{"bower", "bower"},
	{"box model", "css"},
	{"box2d", "box2d"},
	{"branch", "branch"},
	{"branches", "branch"},
	{"branching", "branch"},
	{"brew", "homebrew"},
	{"broadcastreceiver", "broadcastreceiver"},
	{"browser", "browser"},
	{"browser compatibility", "cross-browser"},
	{"browser scrollbars", "scrollbar"},
	{"browsers", "browser"},
	{"bs4", "beautifulsoup"},
	{"bsd sockets", "sockets"},
	{"bst", "binary-search-tree"},
	{"buffer", "buffer"},
	{"buffers", "buffer"},
	{"build", "build"},
	{"build gradle", "build.gradle"},
	{"build.gradle", "build.gradle"},
	{"builds", "build"},
	{"bundle", "bundle"},
	{"bundler", "bundler"},
	{"button", "button"},
	{"buttons", "button"},
	{"byte", "byte"},
	{"bytearray", "arrays"},
	{"bytes", "byte"},
	{"c", "c"},
	{"c preprocessor", "c-preprocessor"},
	{"c sharp", "c#"},
	{"c++", "c++"},
	{"c++ cli", "c++-cli"},
	{"c++0x", "c++11"},
	{"c++11", "c++11"},
	{"c++14", "c++14"},
	{"c++17", "c++17"},
	{"c++1y", "c++14"},
	{"c++1z", "c++17"},
	{"cache", "caching"},
	{"cache coherence", "caching"},
	{"cached", "caching"},
	{"caching", "caching"},
	{"cake", "cakephp"},
	{"cakephp", "cakephp"},
	{"cakephp 2.0", "cakephp-2.0"},
	{"cakephp 3.0", "cakephp-3.0"},
	{"calculator", "calculator"},
	{"calendar", "calendar"},
	{"calender", "calendar"},
	{"call", "call"},
	{"call by reference", "pass-by-reference"},
	{"callback", "callback"},
	{"callbacks", "callback"},
	{"camel", "apache-camel"},
	{"camera", "camera"},
	{"canvas", "canvas"},
	{"capistrano", "capistrano"},
	{"capybara", "capybara"},
	{"carousel", "carousel"},
	{"carrierwave", "carrierwave"},
	{"cascading style sheet", "css"},
	{"case", "case"},
	{"case expression", "case"},
	{"casing conventions", "naming-conventions"},
	{"cassandra", "cassandra"},
	{"cast", "casting"},
	{"casting", "casting"},
	{"catch", "try-catch"},
	{"categories", "categories"},
	{"category", "categories"},
	{"cdi", "cdi"},
	{"cdt", "eclipse-cdt"},
	{"celery", "celery"},
	{"cell", "cell"},
	{"cells", "cell"},
	{"center", "center"},
	{"centos", "centos"},
	{"centos7", "centos7"},
	{"certificate", "certificate"},
	{"certificates", "certificate"},
	{"cf.net", "compact-framework"},
	{"cgi", "cgi"},
	{"char", "char"},
	{"char array", "arrays"},
	{"character", "character"},
	{"character arrays", "arrays"},
	{"character encoding", "character-encoding"},
	{"character escaping", "escaping"},
	{"characters", "character"},
	{"chars", "char"},
	{"charset table", "character-encoding"},
	{"chart", "charts"},
	{"chart.js", "chart.js"},
	{"charting", "charts"},
	{"charting controls", "charts"},
	{"chartjs", "chart.js"},
	{"charts", "charts"},
	{"charts.js", "chart.js"},
	{"chat", "chat"},
	{"checkbox", "checkbox"},
	{"checkboxes", "checkbox"},
	{"chef", "chef"},
	{"chrome", "google-chrome"},
	{"chromedriver", "selenium-chromedriver"},
	{"ci", "continuous-integration"},
	{"cipher", "encryption"},
	{"circle", "geometry"},
	{"ckeditor", "ckeditor"},
	{"clang", "clang"},
	{"class", "class"},
	{"class loading", "classloader"},
	{"classes", "class"},
	{"classic asp", "asp-classic"},
	{"classic javascript", "javascript"},
	{"classification", "classification"},
	{"classifier", "classification"},
	{"classloader", "classloader"},
	{"classloaders", "classloader"},
	{"classpath", "classpath"},
	{"clean code", "coding-style"},
	{"cli", "command-line-interface"},
	{"click", "click"},
	{"clicked", "click"},
	{"clickonce", "clickonce"},
	{"client", "client"},
	{"client authentication", "authentication"},
	{"client server", "client-server"},
	{"clients", "client"},
	{"clipboard", "clipboard"},
	{"clj", "clojure"},
	{"cljc", "clojure"},
	{"cljx", "clojure"},
	{"clojure", "clojure"},
	{"clone", "clone"},
	{"closure", "closures"},
	{"closures", "closures"},
	{"cloud", "cloud"},
	{"cloud computing", "cloud"},
	{"cloud firestore", "google-cloud-firestore"},
	{"cloudformation", "amazon-cloudformation"},
	{"cloudfront", "amazon-cloudfront"},
	{"clr", "clr"},
	{"cluster", "cluster-computing"},
	{"cluster analysis", "cluster-analysis"},
	{"cluster computing", "cluster-computing"},
	{"clustering", "cluster-analysis"},
	{"clusters", "cluster-computing"},
	{"cmake", "cmake"},
	{"cmd", "cmd"},
	{"cmd script", "batch-file"},
	{"cmd.exe", "cmd"},
	{"cms", "content-management-system"},
	{"cocoa", "cocoa"},
	{"cocoa touch", "cocoa-touch"},
	{"cocoa touch framework", "cocoa-touch"},
	{"cocoapods", "cocoapods"},
	{"cocos2d", "cocos2d-iphone"},
	{"cocos2d iphone", "cocos2d-iphone"},
	{"cocos2d x", "cocos2d-x"},
	{"code conventions", "coding-style"},
	{"code coverage", "code-coverage"},
	{"code efficiency", "performance"},
	{"code generation", "code-generation"},
	{"code generator", "code-generation"},
	{"code optimization", "optimization"},
	{"code style", "coding-style"},
	{"codeblocks", "codeblocks"},
	{"codeigniter", "codeigniter"},
	{"codeigniter 2", "codeigniter-2"},
	{"codeigniter 3", "codeigniter-3"},
	{"codeigniter activerecord", "codeigniter"},
	{"codeigniter form helper", "codeigniter"},
	{"codeigniter helpers", "codeigniter"},
	{"codeigniter hmvc", "codeigniter"},
	{"codeigniter hooks", "codeigniter"},
	{"codeigniter htaccess", ".htaccess"},
	{"codeigniter pagination", "codeigniter"},
	{"codeigniter routing", "codeigniter"},
	{"codeigniter url", "codeigniter"},
	{"codeigniter validation", "codeigniter"},
	{"codenameone", "codenameone"},
	{"coding convention", "coding-style"},
	{"coding guidelines", "coding-style"},
	{"coding standards", "coding-style"},
	{"coding style", "coding-style"},
	{"coffee", "coffeescript"},
	{"coffeescript", "coffeescript"},
	{"cognito", "amazon-cognito"},
	{"coldfusion", "coldfusion"},
	{"collection", "collections"},
	{"collections", "collections"},
	{"collision detection", "collision-detection"},
	{"color", "colors"},
	{"colors", "colors"},
	{"colour", "colors"},
	{"colours", "colors"},
	{"colspan", "html-table"},
	{"com", "com"},
	{"combination", "combinations"},
	{"combinations", "combinations"},
	{"combobox", "combobox"},
	{"comboboxes", "combobox"},
	{"comma separated", "csv"},
	{"command", "command"},
	{"command line", "command-line"},
	{"command line arguments", "command-line-arguments"},
	{"command line interface", "command-line-interface"},
	{"command prompt", "command-prompt"},
	{"commands", "command"},
	{"comment", "comments"},
	{"comments", "comments"},
	{"common lisp", "common-lisp"},
	{"compact framework", "compact-framework"},
	{"compare", "compare"},
	{"comparison", "comparison"},
	{"compilation", "compilation"},
	{"compilation error", "compiler-errors"},
	{"compilation errors", "compiler-errors"},
	{"compile", "compilation"},
	{"compile error", "compiler-errors"},
	{"compile errors", "compiler-errors"},
	{"compiler", "compiler-construction"},
	{"compiler construction", "compiler-construction"},
	{"compiler design", "compiler-construction"},
	{"compiler error", "compiler-errors"},
	{"compiler errors", "compiler-errors"},
	{"compilers", "compiler-construction"},
	{"compiling", "compilation"},
	{"complexity", "complexity-theory"},
	{"complexity theory", "complexity-theory"},
	{"component", "components"},
	{"component object model", "com"},
	{"components", "components"},
	{"composer", "composer-php"},
	{"composer php", "composer-php"},
	{"compositewpf", "prism"},
	{"comprehension", "list-comprehension"},
	{"compress", "compression"},
	{"compressed", "compression"},
	{"compression", "compression"},
	{"computational linguistics", "nlp"},
	{"computer graphics", "graphics"},
	{"computer science", "computer-science"},
	{"computer vision", "computer-vision"},
	{"concatenate", "concatenation"},
	{"concatenation", "concatenation"},
	{"concurency", "concurrency"},
	{"concurrency", "concurrency"},
	{"concurrency violation", "concurrency"},
	{"concurrent", "concurrency"},
	{"concurrent programming", "concurrency"},
	{"conda", "conda"},
	{"condition", "conditional-statements"},
	{"conditional", "conditional-statements"},
	{"conditional statements", "conditional-statements"},
	{"conditionals", "conditional-statements"},
	{"conditions", "conditional-statements"},
	{"config", "config"},
	{"configuration", "configuration"},
	{"connection", "connection"},
	{"connection string", "connection-string"},
	{"connections", "connection"},
	{"connectionstrings", "connection-string"},
	{"console", "console"},
	{"console application", "console-application"},
	{"const", "const"},
	{"constant", "constants"},
	{"constants", "constants"},
	{"constraint", "constraints"},
	{"constraints", "constraints"},
	{"constructor", "constructor"},
	{"constructors", "constructor"},
	{"container", "containers"},
	{"containers", "containers"},
	{"content management system", "content-management-system"},
	{"contextmenu", "contextmenu"},
	{"continuous integration", "continuous-integration"},
	{"control", "controls"},
	{"controller", "controller"},
	{"controllers", "controller"},
	{"controls", "controls"},
	{"conv neural network", "conv-neural-network"},
	{"converter", "converter"},
	{"convolutional neural network", "conv-neural-network"},
	{"cookie", "cookies"},
	{"cookies", "cookies"},
	{"coordinate", "coordinates"},
	{"coordinates", "coordinates"},
	{"copy", "copy"},
	{"cordova", "cordova"},
	{"cordova plugins", "cordova-plugins"},
	{"core animation", "core-animation"},
	{"core data", "core-data"},
	{"core graphics", "core-graphics"},
	{"core java", "java"},
	{"corenlp", "stanford-nlp"},
	{"corenlp server", "stanford-nlp"},
	{"corona", "corona"},
	{"coronasdk", "corona"},
	{"cors", "cors"},
	{"couchbase", "couchbase"},
	{"couchdb", "couchdb"},
	{"count", "count"},
	{"counter", "counter"},
	{"coverage", "code-coverage"},
	{"cpanel", "cpanel"},
	{"cpickle", "pickle"},
	{"cpp", "c++"},
	{"cpu", "cpu"},
	{"cq5", "aem"},
	{"crash", "crash"},
	{"crashes", "crash"},
	{"crawl", "web-crawler"},
	{"crawler", "web-crawler"},
	{"crawling", "web-crawler"},
	{"create react app", "create-react-app"},
	{"crlf", "newline"},
	{"cron", "cron"},
	{"cronexpression", "cron"},
	{"cronjob", "cron"},
	{"crontab", "cron"},
	{"cross browser", "cross-browser"},
	{"cross compile", "cross-compiling"},
	{"cross compiling", "cross-compiling"},
	{"cross domain", "cross-domain"},
	{"cross origin", "cross-domain"},
	{"cross platform", "cross-platform"},
	{"cross site scripting", "xss"},
	{"cross threading", "multithreading"},
	{"crud", "crud"},
	{"crypto", "cryptography"},
	{"cryptographic", "cryptography"},
	{"cryptography", "cryptography"},
	{"crystal", "crystal-reports"},
	{"crystal report", "crystal-reports"},
	{"crystal reports", "crystal-reports"},
	{"cs", "computer-science"},
	{"csharp", "c#"},
	{"cshtml", "razor"},
	{"csrf", "csrf"},
	{"csrf protection", "csrf"},
	{"css", "css"},
	{"css animations", "css-animations"},
	{"css attributes", "css"},
	{"css background image", "css"},
	{"css border image", "css"},
	{"css border radius", "css"},
	{"css borders", "css"},
	{"css box model", "css"},
	{"css box shadow", "css"},
	{"css centering", "css"},
	{"css classes", "css"},
	{"css clear", "css-float"},
	{"css columns", "css"},
	{"css combinators", "css-selectors"},
	{"css display", "css"},
	{"css flexbox", "flexbox"},
	{"css float", "css-float"},
	{"css font weight", "css"},
	{"css grid", "css-grid"},
	{"css grids", "css-grid"},
	{"css height", "css"},
	{"css inheritance", "css"},
	{"css keyframes", "css-animations"},
	{"css layout", "css"},
	{"css line height", "css"},
	{"css menu", "css"},
	{"css overflow", "css"},
	{"css position", "css-position"},
	{"css positioning", "css-position"},
	{"css reset", "css"},
	{"css selectors", "css-selectors"},
	{"css sibling", "css-selectors"},
	{"css text overflow", "css"},
	{"css text shadow", "css"},
	{"css transitions", "css-transitions"},
	{"css validation", "css"},
	{"css2", "css"},
	{"css3", "css"},
	{"css3 transitions", "css-transitions"},
	{"csv", "csv"},
	{"ctor", "constructor"},
	{"ctypes", "ctypes"},
	{"cucumber", "cucumber"},
	{"cuda", "cuda"},
	{"cuda kernel", "cuda"},
	{"cudamalloc", "cuda"},
	{"curl", "curl"},
	{"cursor", "cursor"},
	{"custom control", "custom-controls"},
	{"custom controls", "custom-controls"},
	{"custom exceptions", "exception"},
	{"custom macros", "macros"},
	{"custom routes", "routes"},
	{"customization", "customization"},
	{"customize", "customization"},
	{"customized", "customization"},
	{"cv", "computer-vision"},
	{"cxf", "cxf"},
	{"cxx", "c++"},
	{"cygwin", "cygwin"},
	{"cypher", "cypher"},
	{"cython", "cython"},
	{"d3", "d3.js"},
	{"d3js", "d3.js"},
	{"d3v4", "d3.js"},
	{"d3v5", "d3.js"},
	{"dart", "dart"},
	{"data binding", "data-binding"},
	{"data clustering", "cluster-analysis"},
	{"data compression", "compression"},
	{"data encryption", "encryption"},
	{"data frame", "dataframe"},
	{"data science", "data-science"},
	{"data structure", "data-structures"},
	{"data structures", "data-structures"},
	{"data type conversion", "type-conversion"},
	{"data validation", "validation"},
	{"data visualization", "data-visualization"},
	{"data.frame", "dataframe"},
	{"data.table", "data.table"},
	{"database", "database"},
	{"database architecture", "database-design"},
	{"database connection", "database-connection"},
	{"database design", "database-design"},
	{"database migration", "database-migration"},
	{"database modeling", "database-design"},
	{"database structure", "database"},
	{"databases", "database"},
	{"databind", "data-binding"},
	{"dataframe", "dataframe"},
	{"dataframes", "dataframe"},
	{"datagrid", "datagrid"},
	{"datagridview", "datagridview"},
	{"datapicker", "datepicker"},
	{"dataset", "dataset"},
	{"datasets", "dataset"},
	{"datasource", "datasource"},
	{"datatables", "datatables"},
	{"datatype", "types"},
	{"datatypes", "types"},
	{"date", "date"},
	{"date sorting", "sorting"},
	{"datepicker", "datepicker"},
	{"datepicker ui", "datepicker"},
	{"dates", "date"},
	{"datetime", "datetime"},
	{"datetime functions", "datetime"},
	{"datetime manipulation", "datetime"},
	{"datetime operation", "datetime"},
	{"dax", "dax"},
	{"day cq", "aem"},
	{"db", "database"},
	{"db2", "db2"},
	{"dbms", "database"},
	{"ddd", "domain-driven-design"},
	{"debian", "debian"},
	{"debug", "debugging"},
	{"debugger", "debugging"},
	{"debugging", "debugging"},
	{"decimal", "decimal"},
	{"decimals", "decimal"},
	{"deciphering", "encryption"},
	{"decode", "decode"},
	{"decompress", "compression"},
	{"decompression", "compression"},
	{"decorator", "decorator"},
	{"decorators", "decorator"},
	{"decrypt", "encryption"},
	{"decryption", "encryption"},
	{"deduplication", "duplicates"},
	{"deep learning", "deep-learning"},
	{"def", "function"},
	{"default", "default"},
	{"defaults", "default"},
	{"delay", "delay"},
	{"delayed", "delay"},
	{"delegate", "delegates"},
	{"delegates", "delegates"},
	{"delphi", "delphi"},
	{"dependencies", "dependencies"},
	{"dependency", "dependencies"},
	{"dependency injection", "dependency-injection"},
	{"deploy", "deployment"},
	{"deployment", "deployment"},
	{"deserialization", "deserialization"},
	{"deserialize", "serialization"},
	{"design pattern", "design-patterns"},
	{"design patterns", "design-patterns"},
	{"devexpress", "devexpress"},
	{"devise", "devise"},
	{"devops", "devops"},
	{"di", "dependency-injection"},
	{"dialog", "dialog"},
	{"dialogbox", "dialog"},
	{"dialogflow", "dialogflow"},
	{"dialogs", "dialog"},
	{"dialogue", "dialog"},
	{"dict", "dictionary"},
	{"dictionaries", "dictionary"},
	{"dictionary", "dictionary"},
	{"diff", "diff"},
	{"digest", "hash"},
	{"digital certificate", "certificate"},
	{"digital signal processing", "signal-processing"},
	{"dijit", "dojo"},
	{"dir", "directory"},
	{"directories", "directory"},
	{"directory", "directory"},
	{"directx", "directx"},
	{"discord", "discord"},
	{"discord.js", "discord.js"},
	{"distance", "distance"},
	{"distinct", "distinct"},
	{"div", "html"},
	{"div layouts", "html"},
	{"divs", "html"},
	{"django", "django"},
	{"django admin", "django-admin"},
	{"django fields", "django-models"},
	{"django forms", "django-forms"},
	{"django formsets", "django-forms"},
	{"django imagefield", "django-models"},
	{"django modelform", "django-forms"},
	{"django modelforms", "django-forms"},
	{"django modelformsets", "django-forms"},
	{"django models", "django-models"},
	{"django queries", "django-queryset"},
	{"django queryset", "django-queryset"},
	{"django rest framework", "django-rest-framework"},
	{"django template tags", "django-templates"},
	{"django templates", "django-templates"},
	{"django views", "django-views"},
	{"dll", "dll"},
	{"dll hell", "dll"},
	{"dlls", "dll"},
	{"dnd", "drag-and-drop"},
	{"dnn", "dotnetnuke"},
	{"dns", "dns"},
	{"docker", "docker"},
	{"docker compose", "docker-compose"},
	{"dockerfile", "dockerfile"},
	{"docs", "documentation"},
	{"doctrine", "doctrine"},
	{"doctrine orm", "doctrine-orm"},
	{"doctrine2", "doctrine-orm"},
	{"documentation", "documentation"},
	{"docusign", "docusignapi"},
	{"docusignapi", "docusignapi"},
	{"dojo", "dojo"},
	{"dojo layer", "dojo"},
	{"dojo require", "dojo"},
	{"dojo store", "dojo"},
	{"dojo.data", "dojo"},
	{"dojo.stateful", "dojo"},
	{"dojox", "dojo"},
	{"dom", "dom"},
	{"dom events", "dom-events"},
	{"domain", "dns"},
	{"domain driven design", "domain-driven-design"},
	{"domains", "dns"},
	{"dos batch", "batch-file"},
	{"dot net", ".net"},
	{"dotnet", ".net"},
	{"dotnet core", ".net-core"},
	{"dotnetcore", ".net-core"},
	{"dotnetnuke", "dotnetnuke"},
	{"dotnetnuke module", "dotnetnuke"},
	{"dotnetnuke settings", "dotnetnuke"},
	{"double", "double"},
	{"double escaping", "escaping"},
	{"double precision", "precision"},
	{"download", "download"},
	{"downloading", "download"},
	{"downloads", "download"},
	{"dplyr", "dplyr"},
	{"drag and drop", "drag-and-drop"},
	{"drag drop", "drag-and-drop"},
	{"draggable", "draggable"},
	{"draw", "draw"},
	{"drawing", "drawing"},
	{"drf", "django-rest-framework"},
	{"driver", "driver"},
	{"drivers", "driver"},
	{"drools", "drools"},
	{"drop down menu", "drop-down-menu"},
	{"dropbox", "dropbox"},
	{"dropdown", "dropdown"},
	{"dropdownlist", "drop-down-menu"},
	{"drracket", "racket"},
	{"drscheme", "racket"},
	{"drupal", "drupal"},
	{"drupal 6", "drupal-6"},
	{"drupal 7", "drupal-7"},
	{"dsp", "signal-processing"},
	{"dtsx", "ssis"},
	{"duplicate", "duplicates"},
	{"duplicate content", "duplicates"},
	{"duplicate data", "duplicates"},
	{"duplicate detection", "duplicates"},
	{"duplicate entry", "duplicates"},
	{"duplicate removal", "duplicates"},
	{"duplicates", "duplicates"},
	{"duplication", "duplicates"},
	{"dynamic", "dynamic"},
	{"dynamic css", "css"},
	{"dynamic link library", "dll"},
	{"dynamic programming", "dynamic-programming"},
	{"dynamics crm", "dynamics-crm"},
	{"dynamics crm 2011", "dynamics-crm-2011"},
	{"dynamodb", "amazon-dynamodb"},
	{"e commerce", "e-commerce"},
	{"each", "each"},
	{"ec2", "amazon-ec2"},
	{"echo", "echo"},
	{"eclipse", "eclipse"},
	{"eclipse cdt", "eclipse-cdt"},
	{"eclipse plugin", "eclipse-plugin"},
	{"eclipse plugin dev", "eclipse-plugin"},
	{"eclipse plugins", "eclipse-plugin"},
	{"eclipse rcp", "eclipse-rcp"},
	{"eclipselink", "eclipselink"},
	{"ecmascript", "javascript"},
	{"ecmascript 2015", "ecmascript-6"},
	{"ecmascript 6", "ecmascript-6"},
	{"ecommerce", "e-commerce"},
	{"edge browser", "microsoft-edge"},
	{"editor", "editor"},
	{"edittext", "android-edittext"},
	{"ef", "entity-framework"},
	{"ef code first", "ef-code-first"},
	{"ef core", "entity-framework-core"},
	{"ef4", "entity-framework-4"},
	{"ef6", "entity-framework-6"},
	{"efficiency", "performance"},
	{"egrep", "grep"},
	{"ejb", "ejb"},
	{"ejs", "ejs"},
	{"elastic", "elasticsearch"},
	{"elastic beanstalk", "amazon-elastic-beanstalk"},
	{"elasticsearch", "elasticsearch"},
	{"electron", "electron"},
	{"element", "element"},
	{"elements", "element"},
	{"elisp", "elisp"},
	{"elixir", "elixir"},
	{"elixir lang", "elixir"},
	{"eloquent", "eloquent"},
	{"else", "if-statement"},
	{"elseif", "if-statement"},
	{"emacs", "emacs"},
	{"emacs lisp", "elisp"},
	{"email", "email"},
	{"embed", "embed"},
	{"embedded", "embedded"},
	{"embedded linux", "embedded-linux"},
	{"embedded systems", "embedded"},
	{"ember", "ember.js"},
	{"ember cli", "ember-cli"},
	{"ember data", "ember-data"},
	{"ember.js", "ember.js"},
	{"emberjs", "ember.js"},
	{"empty string", "string"},
	{"emulate", "emulation"},
	{"emulation", "emulation"},
	{"emulator", "emulation"},
	{"encoding", "encoding"},
	{"encodings", "encoding"},
	{"encrypt", "encryption"},
	{"encrypted", "encryption"},
	{"encryption", "encryption"},
	{"enhanced for loop", "foreach"},
	{"entity", "entity"},
	{"entity framework", "entity-framework"},
	{"entity framework 4", "entity-framework-4"},
	{"entity framework 5", "entity-framework-5"},
	{"entity framework 6", "entity-framework-6"},
	{"entity framework 6.1", "entity-framework-6"},
	{"entity framework 7", "entity-framework-core"},
	{"entity framework core", "entity-framework-core"},
	{"entity framework designer", "entity-framework"},
	{"entity framework mapping", "entity-framework"},
	{"enum", "enums"},
	{"enumerations", "enums"},
	{"enums", "enums"},
	{"env", "environment-variables"},
	{"environment variables", "environment-variables"},
	{"enzyme", "enzyme"},
	{"erlang", "erlang"},
	{"error handling", "error-handling"},
	{"es2015", "ecmascript-6"},
	{"es6", "ecmascript-6"},
	{"es6 harmony", "ecmascript-6"},
	{"es6 promise", "es6-promise"},
	{"escape", "escaping"},
	{"escape character", "escaping"},
	{"escape sequence", "escaping"},
	{"escaped", "escaping"},
	{"escaped characters", "escaping"},
	{"escaping", "escaping"},
	{"eslint", "eslint"},
	{"etl", "etl"},
	{"eval", "eval"},
	{"event", "events"},
	{"event handler", "event-handling"},
	{"event handlers", "event-handling"},
	{"event handling", "event-handling"},
	{"events", "events"},
	{"evoq", "dotnetnuke"},
	{"ews", "exchangewebservices"},
	{"excel", "excel"},
	{"excel 2007", "excel-2007"},
	{"excel 2010", "excel-2010"},
	{"excel formula", "excel-formula"},
	{"excel macro", "excel-vba"},
	{"excel vba", "excel-vba"},
	{"exception", "exception"},
	{"exception handling", "exception"},
	{"exceptions", "exception"},
	{"exchange", "exchange-server"},
	{"exchange server", "exchange-server"},
	{"exchangewebservices", "exchangewebservices"},
	{"exchangews", "exchangewebservices"},
	{"exe", "exe"},
	{"exec", "exec"},
	{"executable", "executable"},
	{"expandablelistview", "expandablelistview"},
	{"expo", "expo"},
	{"export", "export"},
	{"export to csv", "export-to-csv"},
	{"express", "express"},
	{"express.js", "express"},
	{"expression", "expression"},
	{"expressions", "expression"},
	{"expressjs", "express"},
	{"ext", "extjs"},
	{"extension methods", "extension-methods"},
	{"external", "external"},
	{"externals", "external"},
	{"extjs", "extjs"},
	{"extjs4", "extjs4"},
	{"extract", "extract"},
	{"fabricjs", "fabricjs"},
	{"facebook", "facebook"},
	{"facebook api", "facebook"},
	{"facebook application", "facebook"},
	{"facebook connect", "facebook"},
	{"facebook fql", "facebook-fql"},
	{"facebook graph", "facebook-graph-api"},
	{"facebook graph api", "facebook-graph-api"},
	{"facebook javascript sdk", "facebook-javascript-sdk"},
	{"facebook jssdk", "facebook-javascript-sdk"},
	{"facebook like", "facebook-like"},
	{"facebook login", "facebook-login"},
	{"facebook opengraph", "facebook-opengraph"},
	{"facebook php sdk", "facebook-php-sdk"},
	{"facebook sdk", "facebook"},
	{"facebook sdk ios", "facebook"},
	{"fancybox", "fancybox"},
	{"fast", "performance"},
	{"faster", "performance"},
	{"fcm", "firebase-cloud-messaging"},
	{"fetch", "fetch"},
	{"ffmpeg", "ffmpeg"},
	{"fft", "fft"},
	{"fgrep", "grep"},
	{"field", "field"},
	{"fields", "field"},
	{"file", "file"},
	{"file download", "download"},
	{"file io", "file-io"},
	{"file operations", "file-io"},
	{"file upload", "file-upload"},
	{"fileinput", "file-io"},
	{"filename", "filenames"},
	{"filenames", "filenames"},
	{"files", "file"},
	{"filesystem", "filesystems"},
	{"filesystems", "filesystems"},
	{"fileuploader", "file-upload"},
	{"filter", "filter"},
	{"filtering", "filtering"},
	{"filters", "filter"},
	{"find", "find"},
	{"find and replace", "replace"},
	{"finite precision", "precision"},
	{"firebase", "firebase"},
	{"firebase android", "firebase"},
	{"firebase anonymous authentication", "firebase-authentication"},
	{"firebase authentication", "firebase-authentication"},
	{"firebase cloud firestore", "google-cloud-firestore"},
	{"firebase cloud functions", "google-cloud-functions"},
	{"firebase cloud messaging", "firebase-cloud-messaging"},
	{"firebase database", "firebase-realtime-database"},
	{"firebase firestore", "google-cloud-firestore"},
	{"firebase functions", "google-cloud-functions"},
	{"firebase realtime database", "firebase-realtime-database"},
	{"firebase security", "firebase-security"},
	{"firebase security rules", "firebase-security"},
	{"firebase storage", "firebase-storage"},
	{"firebird", "firebird"},
	{"firefox", "firefox"},
	{"firefox addon", "firefox-addon"},
	{"firefox extension", "firefox-addon"},
	{"firemonkey", "firemonkey"},
	{"firestore", "google-cloud-firestore"},
	{"firestore rules", "firebase-security"},
	{"firestore security rules", "firebase-security"},
	{"first child", "css-selectors"},
	{"first of type", "css-selectors"},
	{"fk relationship", "foreign-keys"},
	{"flash", "flash"},
	{"flash builder", "flash-builder"},
	{"flash ide", "flash"},
	{"flash player", "flash"},
	{"flask", "flask"},
	{"flask blueprint", "flask"},
	{"flask sqlalchemy", "flask-sqlalchemy"},
	{"flex sdk", "apache-flex"},
	{"flex4", "flex4"},
	{"flexbox", "flexbox"},
	{"flink", "apache-flink"},
	{"float css", "css-float"},
	{"floating point", "floating-point"},
	{"floating point precision", "precision"},
	{"fluent entity framework", "entity-framework"},
	{"fluent nhibernate", "fluent-nhibernate"},
	{"flutter", "flutter"},
	{"flutter layout", "flutter-layout"},
	{"fmx", "firemonkey"},
	{"focus", "focus"},
	{"folder", "directory"},
	{"folders", "directory"},
	{"font", "fonts"},
	{"font awesome", "font-awesome"},
	{"font face", "font-face"},
	{"font weight", "css"},
	{"fonts", "fonts"},
	{"footer", "footer"},
	{"for loop", "for-loop"},
	{"foreach", "foreach"},
	{"foreach loop", "foreach"},
	{"foreign key", "foreign-keys"},
	{"foreign key relationship", "foreign-keys"},
	{"foreign keys", "foreign-keys"},
	{"fork", "fork"},
	{"forking", "fork"},
	{"form", "forms"},
	{"form authentication", "forms-authentication"},
	{"form validation", "validation"},
	{"format", "format"},
	{"formating", "formatting"},
	{"formats", "format"},
	{"formatting", "formatting"},
	{"forms", "forms"},
	{"forms authentication", "forms-authentication"},
	{"formsauthentication", "forms-authentication"},
	{"formula", "formula"},
	{"formulas", "formula"},
	{"fortran", "fortran"},
	{"fourier", "fft"},
	{"fourier transform", "fft"},
	{"fprintf", "printf"},
	{"fql", "facebook-fql"},
	{"fragment", "fragment"},
	{"frame", "frame"},
	{"framework", "frameworks"},
	{"frameworks", "frameworks"},
	{"frontend", "frontend"},
	{"fscanf", "scanf"},
	{"fsharp", "f#"},
	{"ftp", "ftp"},
	{"fts", "full-text-search"},
	{"full text search", "full-text-search"},
	{"fullcalendar", "fullcalendar"},
	{"fullscreen", "fullscreen"},
	{"fulltext", "full-text-search"},
	{"fulltext searching", "full-text-search"},
	{"function", "function"},
	{"function overloading", "overloading"},
	{"function overriding", "overriding"},
	{"function pointers", "function-pointers"},
	{"functional", "functional-programming"},
	{"functional programming", "functional-programming"},
	{"functions", "function"},
	{"fxml", "fxml"},
	{"g++", "g++"},
	{"gae", "google-app-engine"},
	{"gae datastore", "google-cloud-datastore"},
	{"gallery", "gallery"},
	{"game engine", "game-engine"},
	{"game physics", "game-physics"},
	{"gang of four", "design-patterns"},
	{"garbage collection", "garbage-collection"},
	{"garbage collector", "garbage-collection"},
	{"gawk", "awk"},
	{"gc", "garbage-collection"},
	{"gcc", "gcc"},
	{"gcd", "grand-central-dispatch"},
	{"gce", "google-compute-engine"},
	{"gcm", "google-cloud-messaging"},
	{"gcp", "google-cloud-platform"},
	{"gdb", "gdb"},
	{"gem", "rubygems"},
	{"gems", "rubygems"},
	{"generator", "generator"},
	{"generators", "generator"},
	{"generic", "generics"},
	{"generic class", "generics"},
	{"generics", "generics"},
	{"geographical information", "gis"},
	{"geojason", "geojson"},
	{"geojson", "geojson"},
	{"geolocation", "geolocation"},
	{"geometry", "geometry"},
	{"geospatial", "geospatial"},
	{"get", "get"},
	{"ggplot", "ggplot2"},
	{"ggplot2", "ggplot2"},
	{"gis", "gis"},
	{"git", "git"},
	{"github", "github"},
	{"gitlab", "gitlab"},
	{"gitlab ci", "gitlab-ci"},
	{"gke", "google-kubernetes-engine"},
	{"glassfish", "glassfish"},
	{"global", "global"},
	{"global variable", "global-variables"},
	{"global variables", "global-variables"},
	{"glsl", "glsl"},
	{"gmail", "gmail"},
	{"gmail api", "gmail-api"},
	{"gmake", "gnu-make"},
	{"gmaps", "google-maps"},
	{"gnu make", "gnu-make"},
	{"gnumakefile", "gnu-make"},
	{"gnumakefiles", "gnu-make"},
	{"gnuplot", "gnuplot"},
	{"go", "go"},
	{"go language", "go"},
	{"gof", "design-patterns"},
	{"golang", "go"},
	{"google admob", "admob"},
	{"google analytics", "google-analytics"},
	{"google analytics api", "google-analytics-api"},
	{"google api", "google-api"},
	{"google api oauth", "google-oauth"},
	{"google apis", "google-api"},
	{"google app engine", "google-app-engine"},
	{"google app engine java", "google-app-engine"},
	{"google apps script", "google-apps-script"},
	{"google bigquery", "google-bigquery"},
	{"google bigquery ml", "google-bigquery"},
	{"google calendar", "google-calendar-api"},
	{"google calendar api", "google-calendar-api"},
	{"google calendar api3", "google-calendar-api"},
	{"google charts", "google-visualization"},
	{"google charts api", "google-visualization"},
	{"google chartwrapper", "google-visualization"},
	{"google chrome", "google-chrome"},
	{"google chrome devtools", "google-chrome-devtools"},
	{"google chrome extension", "google-chrome-extension"},
	{"google cloud", "google-cloud-platform"},
	{"google cloud dataflow", "google-cloud-dataflow"},
	{"google cloud datastore", "google-cloud-datastore"},
	{"google cloud firestore", "google-cloud-firestore"},
	{"google cloud functions", "google-cloud-functions"},
	{"google cloud messaging", "google-cloud-messaging"},
	{"google cloud platform", "google-cloud-platform"},
	{"google cloud storage", "google-cloud-storage"},
	{"google collections", "guava"},
	{"google compute engine", "google-compute-engine"},
	{"google container engine", "google-kubernetes-engine"},
	{"google datastore", "google-cloud-datastore"},
	{"google drive", "google-drive-api"},
	{"google drive api", "google-drive-api"},
	{"google drive api v3", "google-drive-api"},
	{"google drive sdk", "google-drive-api"},
	{"google geochart", "google-visualization"},
	{"google guava cache", "guava"},
	{"google guice", "guice"},
	{"google kubernetes engine", "google-kubernetes-engine"},
	{"google linechart", "google-visualization"},
	{"google mail", "gmail"},
	{"google maps", "google-maps"},
	{"google maps android api 2", "google-maps-android-api-2"},
	{"google maps api", "google-maps"},
	{"google maps api 3", "google-maps-api-3"},
	{"google maps api v3", "google-maps-api-3"},
	{"google maps markers", "google-maps-markers"},
	{"google maps v3", "google-maps-api-3"},
	{"google oauth", "google-oauth"},
	{"google organization chart", "google-visualization"},
	{"google places api", "google-places-api"},
	{"google play", "google-play"},
	{"google play services", "google-play-services"},
	{"google play store", "google-play"},
	{"google plus", "google-plus"},
	{"google protobuf", "protocol-buffers"},
	{"google recaptcha", "recaptcha"},
	{"google script", "google-apps-script"},
	{"google scripts", "google-apps-script"},
	{"google services", "google-play-services"},
	{"google services json", "google-play-services"},
	{"google sheets", "google-sheets"},
	{"google sheets formula", "google-sheets-formula"},
	{"google spreadsheet", "google-sheets"},
	{"google storage", "google-cloud-storage"},
	{"google tag manager", "google-tag-manager"},
	{"google timeline chart", "google-visualization"},
	{"google visualization", "google-visualization"},
	{"google web toolkit", "gwt"},
	{"google+", "google-plus"},
	{"gorm", "gorm"},
	{"gps", "gps"},
	{"gpu", "gpu"},
	{"gradient", "gradient"},
	{"gradients", "gradient"},
	{"gradle", "gradle"},
	{"grails", "grails"},
	{"grails hasmany", "gorm"},
	{"grails orm", "gorm"},
	{"grand central dispatch", "grand-central-dispatch"},
	{"graph", "graph"},
	{"graph api", "facebook-graph-api"},
	{"graph theory", "graph-theory"},
	{"graphic", "graphics"},
	{"graphics", "graphics"},
	{"graphql", "graphql"},
	{"graphs", "graph"},
	{"greatest n per group", "greatest-n-per-group"},
	{"grep", "grep"},
	{"grid", "grid"},
	{"gridview", "gridview"},
	{"groovy", "groovy"},
	{"groovygrails", "grails"},
	{"group by", "group-by"},
	{"group by all", "group-by"},
	{"group by time interval", "group-by"},
	{"grouping", "grouping"},
	{"grunt", "gruntjs"},
	{"grunt cli", "gruntjs"},
	{"gruntjs", "gruntjs"},
	{"gson", "gson"},
	{"gst", "gstreamer"},
	{"gstreamer", "gstreamer"},
	{"gtk", "gtk"},
	{"gtk+", "gtk"},
	{"guava", "guava"},
	{"guava collections", "guava"},
	{"gui", "user-interface"},
	{"guice", "guice"},
	{"gulp", "gulp"},
	{"gunicorn", "gunicorn"},
	{"gvim", "vim"},
	{"gvimrc", "vim"},
	{"gwt", "gwt"},
	{"gz", "gzip"},
	{"gzip", "gzip"},
	{"h2", "h2"},
	{"hadoop", "hadoop"},
	{"haml", "haml"},
	{"handlebars", "handlebars.js"},
	{"handlebars.js", "handlebars.js"},
	{"handler", "handler"},
	{"handlers", "handler"},
	{"hash", "hash"},
	{"hashalgorithm", "hash"},
	{"hashes", "hash"},
	{"hashing", "hash"},
	{"hashmap", "hashmap"},
	{"hashmaps", "hashmap"},
	{"hashtable", "hashtable"},
	{"haskell", "haskell"},
	{"hbase", "hbase"},
	{"hdfs", "hdfs"},
	{"header", "header"},
	{"headers", "header"},
	{"heap", "heap"},
	{"height", "height"},
	{"heroku", "heroku"},
	{"hex", "hex"},
	{"hexadecimal", "hex"},
	{"hexadecimal notation", "hex"},
	{"hg", "mercurial"},
	{"hibernate", "hibernate"},
	{"hide", "hide"},
	{"highcharts", "highcharts"},
	{"highmaps", "highcharts"},
	{"highstock", "highcharts"},
	{"histogram", "histogram"},
	{"hive", "hive"},
	{"hiveql", "hiveql"},
	{"homebrew", "homebrew"},
	{"hook", "hook"},
	{"hooking", "hook"},
	{"hooks", "hook"},
	{"hosting", "hosting"},
	{"hover", "hover"},
	{"hql", "hql"},
	{"href", "href"},
	{"htaccess", ".htaccess"},
	{"html", "html"},
	{"html agility pack", "html-agility-pack"},
	{"html attributes", "html"},
	{"html comments", "html"},
	{"html dom", "dom"},
	{"html email", "html-email"},
	{"html form", "forms"},
	{"html layout", "layout"},
	{"html lists", "html-lists"},
	{"html option", "html-select"},
	{"html parsing", "html-parsing"},
	{"html select", "html-select"},
	{"html table", "html-table"},
	{"html tag", "html"},
	{"html.dropdownlist", "html-select"},
	{"html5", "html"},
	{"html5 canvas", "html5-canvas"},
	{"html5 video", "html5-video"},
	{"htmldocument", "dom"},
	{"htmllayout", "layout"},
	{"htmlparser", "html-parsing"},
	{"http", "http"},
	{"http headers", "http-headers"},
	{"http post", "http-post"},
	{"http request", "httprequest"},
	{"http status code 404", "http-status-code-404"},
	{"httpclient", "httpclient"},
	{"httpd", "apache"},
	{"httprequest", "httprequest"},
	{"httpresponse", "httpresponse"},
	{"https", "https"},
	{"httpservletrequest", "servlets"},
	{"httpservletresponse", "servlets"},
	{"httpurlconnection", "httpurlconnection"},
	{"httpwebrequest", "httpwebrequest"},
	{"hyperledger", "hyperledger"},
	{"hyperledger fabric", "hyperledger-fabric"},
	{"hyperlink", "hyperlink"},
	{"hyperlinks", "hyperlink"},
	{"hypertext preprocessor", "php"},
	{"i18n", "internationalization"},
	{"ia 32", "x86"},
	{"ia32", "x86"},
	{"iap", "in-app-purchase"},
	{"ibm", "websphere"},
	{"ibm bluemix", "ibm-cloud"},
	{"ibm cloud", "ibm-cloud"},
	{"ibm db2", "db2"},
	{"ibm mobilefirst", "ibm-mobilefirst"},
	{"ibm mq", "ibm-mq"},
	{"ibm notes", "lotus-notes"},
	{"ibm was", "websphere"},
	{"icon", "icons"},
	{"icons", "icons"},
	{"ide", "ide"},
	{"identityserver4", "identityserver4"},
	{"ie", "internet-explorer"},
	{"ie11", "internet-explorer-11"},
	{"ie7", "internet-explorer-7"},
	{"ie7 bug", "internet-explorer-7"},
	{"ie8", "internet-explorer-8"},
	{"ie9", "internet-explorer-9"},
	{"ienumerable", "ienumerable"},
	{"if", "if-statement"},
	{"if clause", "if-statement"},
	{"if condition", "if-statement"},
	{"if else", "if-statement"},
	{"if else statement", "if-statement"},
	{"if statement", "if-statement"},
	{"if then", "if-statement"},
	{"if then else", "if-statement"},
	{"ifelse", "if-statement"},
	{"ifft", "fft"},
	{"iframe", "iframe"},
	{"iframes", "iframe"},
	{"ignore duplicates", "duplicates"},
	{"igraph", "igraph"},
	{"iis", "iis"},
	{"iis 7", "iis-7"},
	{"iis 7.5", "iis-7.5"},
	{"iis7", "iis-7"},
	{"ilist", "list"},
	{"image", "image"},
	{"image processing", "image-processing"},
	{"image uploading", "file-upload"},
	{"imagemagick", "imagemagick"},
	{"images", "image"},
	{"imageview", "imageview"},
	{"imap", "imap"},
	{"img", "image"},
	{"immutability", "immutability"},
	{"immutable", "immutability"},
	{"immutable class", "immutability"},
	{"import", "import"},
	{"importing", "import"},
	{"imports", "import"},
	{"in app purchase", "in-app-purchase"},
	{"include", "include"},
	{"include files", "include"},
	{"includes", "include"},
	{"index", "indexing"},
	{"indexes", "indexing"},
	{"indexing", "indexing"},
	{"infile", "file-io"},
	{"inherit", "inheritance"},
	{"inheritance", "inheritance"},
	{"inheritence", "inheritance"},
	{"initialisation", "initialization"},
	{"initialization", "initialization"},
	{"initialize", "initialization"},
	{"inline", "inline"},
	{"inline block", "css"},
	{"inner join", "inner-join"},
	{"inno setup", "inno-setup"},
	{"innodb", "innodb"},
	{"input", "input"},
	{"input file", "file-io"},
	{"input files", "file-io"},
	{"input output", "io"},
	{"input validation", "validation"},
	{"inputs", "input"},
	{"inputstream", "inputstream"},
	{"insert", "insert"},
	{"insert into", "sql-insert"},
	{"inserts", "insert"},
	{"instagram", "instagram"},
	{"install", "install"},
	{"installation", "installation"},
	{"installer", "installer"},
	{"installing", "installation"},
	{"instance", "instance"},
	{"instances", "instance"},
	{"int", "int"},
	{"integer", "integer"},
	{"integers", "integer"},
	{"integration", "integration"},
	{"integration services", "ssis"},
	{"integration testing", "integration-testing"},
	{"integration tests", "integration-testing"},
	{"intellij", "intellij-idea"},
	{"intellij 2016.1", "intellij-idea"},
	{"intellij idea", "intellij-idea"},
	{"intellisense", "intellisense"},
	{"intent", "android-intent"},
	{"intents", "android-intent"},
	{"inter process communicat", "ipc"},
	{"interface", "interface"},
	{"interface builder", "interface-builder"},
	{"interfaces", "interface"},
	{"internationalization", "internationalization"},
	{"internet explorer", "internet-explorer"},
	{"internet explorer 11", "internet-explorer-11"},
	{"internet explorer 7", "internet-explorer-7"},
	{"internet explorer 8", "internet-explorer-8"},
	{"internet explorer 9", "internet-explorer-9"},
	{"interop", "interop"},
	{"interoperability", "interop"},
	{"interpolate", "interpolation"},
	{"interpolation", "interpolation"},
	{"interprocess communicatio", "ipc"},
	{"inversion of control", "inversion-of-control"},
	{"io", "io"},
	{"io.js", "node.js"},
	{"iobservable", "system.reactive"},
	{"iobserver", "system.reactive"},
	{"ioc", "inversion-of-control"},
	{"ionic", "ionic-framework"},
	{"ionic framework", "ionic-framework"},
	{"ionic2", "ionic2"},
	{"ionic3", "ionic3"},
	{"ionic4", "ionic4"},
	{"ios", "ios"},
	{"ios 4.0", "ios4"},
	{"ios 5.0", "ios5"},
	{"ios sdk", "ios"},
	{"ios simulator", "ios-simulator"},
	{"ios4", "ios4"},
	{"ios4.0.1", "ios4"},
	{"ios4.1", "ios4"},
	{"ios4.3", "ios4"},
	{"ios5", "ios5"},
	{"ios5 compatibility", "ios5"},
	{"ios5 sdk", "ios5"},
	{"ios6", "ios6"},
	{"ios7", "ios7"},
	{"ios8", "ios8"},
	{"ios9", "ios9"},
	{"ip", "ip"},
	{"ip address", "ip-address"},
	{"ipad", "ipad"},
	{"ipad sdk", "ipad"},
	{"ipad simulator", "ios-simulator"},
	{"ipad splitview", "ipad"},
	{"ipad ui", "ipad"},
	{"ipc", "ipc"},
	{"iphone", "iphone"},
	{"iphone app", "iphone"},
	{"iphone development", "iphone"},
	{"iphone ios", "iphone"},
	{"iphone os", "ios"},
	{"iphone os 4", "ios4"},
	{"iphone os 4.0", "ios4"},
	{"iphone programming", "iphone"},
	{"iphone sdk", "iphone"},
	{"iphone sdk 4", "ios4"},
	{"iphone sdk 4.0", "ios4"},
	{"iphone sdk 5.0", "ios5"},
	{"iphone sdk 6.0", "ios6"},
	{"iphone simulator", "ios-simulator"},
	{"iphone web", "iphone"},
	{"ipython", "ipython"},
	{"ipython notebook", "jupyter-notebook"},
	{"iterate", "loops"},
	{"iteration", "iteration"},
	{"iterative", "iteration"},
	{"iterator", "iterator"},
	{"iterators", "iterator"},
	{"itext", "itext"},
	{"itextpdf", "itext"},
	{"itextsharp", "itext"},
	{"itunes connect", "app-store-connect"},
	{"itunesconnect", "app-store-connect"},
	{"j2ee", "jakarta-ee"},
	{"j2me", "java-me"},
	{"j2se", "java"},
	{"jabber", "xmpp"},
	{"jackson", "jackson"},
	{"jade", "pug"},
	{"jakarta ee", "jakarta-ee"},
	{"jar", "jar"},
	{"jars", "jar"},
	{"jasmine", "jasmine"},
	{"jasper", "jasper-reports"},
	{"jasper reports", "jasper-reports"},
	{"jasperprint", "jasper-reports"},
	{"java", "java"},
	{"java 8", "java-8"},
	{"java applet", "applet"},
	{"java collections api", "collections"},
	{"java ee", "jakarta-ee"},
	{"java ee web profile", "jakarta-ee"},
	{"java generics", "generics"},
	{"java libraries", "java"},
	{"java me", "java-me"},
	{"java native interface", "java-native-interface"},
	{"java persistence api", "jpa"},
	{"java se", "java"},
	{"java stream", "java-stream"},
	{"java swing", "swing"},
	{"java util scanner", "java.util.scanner"},
	{"java.util.scanner", "java.util.scanner"},
	{"javabeans", "javabeans"},
	{"javafx", "javafx"},
	{"javafx 2", "javafx-2"},
	{"javafx 8", "javafx-8"},
	{"javamail", "javamail"},
	{"javascript", "javascript"},
	{"javascript alert", "javascript"},
	{"javascript array", "arrays"},
	{"javascript disabled", "javascript"},
	{"javascript dom", "javascript"},
	{"javascript event", "javascript-events"},
	{"javascript events", "javascript-events"},
	{"javascript execution", "javascript"},
	{"javascript library", "javascript"},
	{"javascript module", "javascript"},
	{"javascript objects", "javascript-objects"},
	{"javascript performance", "performance"},
	{"javascript runtime", "javascript"},
	{"javascriptobject", "javascript-objects"},
	{"javax", "java"},
	{"javax.mail", "javamail"},
	{"javax.swing", "swing"},
	{"jax rs", "jax-rs"},
	{"jax ws", "jax-ws"},
	{"jaxb", "jaxb"},
	{"jaxb2", "jaxb"},
	{"jboss", "jboss"},
	{"jboss as 7", "jboss7.x"},
	{"jboss netty", "netty"},
	{"jbutton", "jbutton"},
	{"jdbc", "jdbc"},
	{"jdbc driver", "jdbc"},
	{"jdk", "java"},
	{"jdk1.8", "java-8"},
	{"jdk1.8.0", "java-8"},
	{"jdk8", "java-8"},
	{"jee", "jakarta-ee"},
	{"jekyll", "jekyll"},
	{"jenkins", "jenkins"},
	{"jenkins pipeline", "jenkins-pipeline"},
	{"jenkins plugins", "jenkins-plugins"},
	{"jenkins workflow", "jenkins-pipeline"},
	{"jenkinsfile", "jenkins-pipeline"},
	{"jersey", "jersey"},
	{"jestjs", "jestjs"},
	{"jetty", "jetty"},
	{"jframe", "jframe"},
	{"jhipster", "jhipster"},
	{"jinja", "jinja2"},
	{"jinja2", "jinja2"},
	{"jira", "jira"},
	{"jlabel", "jlabel"},
	{"jme", "java-me"},
	{"jmeter", "jmeter"},
	{"jms", "jms"},
	{"jni", "java-native-interface"},
	{"join", "join"},
	{"joins", "join"},
	{"jointable", "join"},
	{"joomla", "joomla"},
	{"jpa", "jpa"},
	{"jpa 2", "jpa-2.0"},
	{"jpa 2.0", "jpa-2.0"},
	{"jpanel", "jpanel"},
	{"jpeg", "jpeg"},
	{"jpg", "jpeg"},
	{"jq", "jq"},
	{"jqgrid", "jqgrid"},
	{"jqm", "jquery-mobile"},
	{"jquery", "jquery"},
	{"jquery after", "jquery"},
	{"jquery animate", "jquery-animate"},
	{"jquery animation", "jquery-animate"},
	{"jquery callback", "jquery"},
	{"jquery core", "jquery"},
	{"jquery css", "jquery"},
	{"jquery datatables", "datatables"},
	{"jquery effects", "jquery"},
	{"jquery filter", "jquery"},
	{"jquery find", "jquery"},
	{"jquery get", "jquery"},
	{"jquery grid", "jqgrid"},
	{"jquery hasclass", "jquery"},
	{"jquery live", "jquery"},
	{"jquery mobile", "jquery-mobile"},
	{"jquery performance", "performance"},
	{"jquery plugin", "jquery-plugins"},
	{"jquery plugins", "jquery-plugins"},
	{"jquery post", "jquery"},
	{"jquery select2", "jquery-select2"},
	{"jquery selector", "jquery-selectors"},
	{"jquery selectors", "jquery-selectors"},
	{"jquery sortable", "jquery-ui-sortable"},
	{"jquery ui", "jquery-ui"},
	{"jquery ui sortable", "jquery-ui-sortable"},
	{"jquery validate", "jquery-validate"},
	{"jquery validation plugin", "jquery-validate"},
	{"jre", "java"},
	{"jrxml", "jasper-reports"},
	{"js", "javascript"},
	{"jsf", "jsf"},
	{"jsf 2", "jsf-2"},
	{"jsf2.0", "jsf-2"},
	{"json", "json"},
	{"json decode", "json"},
	{"json encode", "json"},
	{"json parsing", "json"},
	{"json web token", "jwt"},
	{"json.net", "json.net"},
	{"jsonarray", "arrays"},
	{"jsonobject", "json"},
	{"jsonp", "jsonp"},
	{"jsoup", "jsoup"},
	{"jsp", "jsp"},
	{"jstl", "jstl"},
	{"jsx", "jsx"},
	{"jtable", "jtable"},
	{"julia", "julia"},
	{"julia lang", "julia"},
	{"julialang", "julia"},
	{"junit", "junit"},
	{"junit4", "junit4"},
	{"jupyter", "jupyter"},
	{"jupyter notebook", "jupyter-notebook"},
	{"jvm", "jvm"},
	{"jwt", "jwt"},
	{"k8s", "kubernetes"},
	{"kafka", "apache-kafka"},
	{"karma", "karma-runner"},
	{"karma jasmine", "karma-jasmine"},
	{"karma runner", "karma-runner"},
	{"kendo", "kendo-ui"},
	{"kendo grid", "kendo-grid"},
	{"kendo ui", "kendo-ui"},
	{"keras", "keras"},
	{"kerberos", "kerberos"},
	{"kernel", "kernel"},
	{"kernel programming", "kernel"},
	{"key", "key"},
	{"keyboard", "keyboard"},
	{"keyboard shortcuts", "keyboard-shortcuts"},
	{"keyboards", "keyboard"},
	{"keys", "key"},
	{"kibana", "kibana"},
	{"kivy", "kivy"},
	{"knitr", "knitr"},
	{"knockout", "knockout.js"},
	{"knockout.js", "knockout.js"},
	{"knockoutjs", "knockout.js"},
	{"ko.observablearray", "knockout.js"},
	{"kotlin", "kotlin"},
	{"kotlin generics", "generics"},
	{"kubernetes", "kubernetes"},
	{"kubuntu", "ubuntu"},
	{"l10n", "localization"},
	{"l2e", "linq-to-entities"},
	{"label", "label"},
	{"labels", "label"},
	{"lambda", "lambda"},
	{"lambda expressions", "lambda"},
	{"lambda functions", "lambda"},
	{"language agnostic", "language-agnostic"},
	{"language independent", "language-agnostic"},
	{"language integrated query", "linq"},
	{"language lawyer", "language-lawyer"},
	{"language processing", "nlp"},
	{"laravel", "laravel"},
	{"laravel 4", "laravel-4"},
	{"laravel 5", "laravel-5"},
	{"laravel 5.1", "laravel-5"},
	{"laravel 5.2", "laravel-5"},
	{"laravel 5.3", "laravel-5"},
	{"laravel 5.4", "laravel-5"},
	{"laravel 5.5", "laravel-5"},
	{"laravel eloquent", "eloquent"},
	{"last child", "css-selectors"},
	{"last of type", "css-selectors"},
	{"latex", "latex"},
	{"layout", "layout"},
	{"layouts", "layout"},
	{"lazy load", "lazy-loading"},
	{"lazy loading", "lazy-loading"},
	{"lazyload", "lazy-loading"},
	{"ldap", "ldap"},
	{"leaflet", "leaflet"},
	{"left join", "left-join"},
	{"left outer join", "left-join"},
	{"legend", "legend"},
	{"less", "less"},
	{"lesscss", "less"},
	{"li", "html-lists"},
	{"libgdx", "libgdx"},
	{"liferay", "liferay"},
	{"limit", "limit"},
	{"limits", "limit"},
	{"line", "line"},
	{"linear algebra", "linear-algebra"},
	{"linear regression", "linear-regression"},
	{"linearlayout", "android-linearlayout"},
	{"lines", "line"},
	{"link", "hyperlink"},
	{"link errors", "linker-errors"},
	{"linked list", "linked-list"},
	{"linkedin", "linkedin"},
	{"linker", "linker"},
	{"linker errors", "linker-errors"},
	{"linking", "linker"},
	{"linking errors", "linker-errors"},
	{"links", "hyperlink"},
	{"linq", "linq"},
	{"linq entity framework", "entity-framework"},
	{"linq performance", "performance"},
	{"linq query syntax", "linq"},
	{"linq to entities", "linq-to-entities"},
	{"linq to sql", "linq-to-sql"},
	{"linq to xml", "linq-to-xml"},
	{"linq2sql", "linq-to-sql"},
	{"linux", "linux"},
	{"linux device driver", "linux-device-driver"},
	{"linux kernel", "linux-kernel"},
	{"lisp", "lisp"},
	{"list", "list"},
	{"list comprehension", "list-comprehension"},
	{"listbox", "listbox"},
	{"listener", "listener"},
	{"listeners", "listener"},
	{"listiterator", "iterator"},
	{"lists", "list"},
	{"listview", "listview"},
	{"llvm", "llvm"},
	{"load", "load"},
	{"load balance", "load-balancing"},
	{"load balancer", "load-balancing"},
	{"load balancing", "load-balancing"},
	{"loading", "loading"},
	{"local", "local"},
	{"local storage", "local-storage"},
	{"locale", "locale"},
	{"localhost", "localhost"},
	{"localisation", "localization"},
	{"localization", "localization"},
	{"localize", "localization"},
	{"location", "location"},
	{"lock", "locking"},
	{"locking", "locking"},
	{"lodash", "lodash"},
	{"lodash es", "lodash"},
	{"log", "logging"},
	{"log4j", "log4j"},
	{"log4j2", "log4j2"},
	{"log4net", "log4net"},
	{"logback", "logback"},
	{"logger", "logging"},
	{"logging", "logging"},
	{"logic", "logic"},
	{"login", "authentication"},
	{"logon", "authentication"},
	{"logs", "logging"},
	{"logstash", "logstash"},
	{"loop", "loops"},
	{"looping", "loops"},
	{"loops", "loops"},
	{"lotus notes", "lotus-notes"},
	{"lstm", "lstm"},
	{"lua", "lua"},
	{"lubuntu", "ubuntu"},
	{"lucene", "lucene"},
	{"lucene index", "lucene"},
	{"lwjgl", "lwjgl"},
	{"lxml", "lxml"},
	{"m file", "matlab"},
	{"mac", "macos"},
	{"machine learning", "machine-learning"},
	{"machine vision", "computer-vision"},
	{"macos", "macos"},
	{"macosx", "macos"},
	{"macro", "macros"},
	{"macros", "macros"},
	{"macros vba", "vba"},
	{"magento", "magento"},
	{"magento 1.7", "magento-1.7"},
	{"magento 1.9", "magento-1.9"},
	{"magento admin", "magento"},
	{"magento catalog", "magento"},
	{"magento enterprise", "magento"},
	{"magento extension", "magento"},
	{"magento module", "magento"},
	{"magento theming", "magento"},
	{"magento upgrade", "magento"},
	{"magento widgets", "magento"},
	{"magento2", "magento2"},
	{"mail", "email"},
	{"main activity", "android-activity"},
	{"make", "makefile"},
	{"makefile", "makefile"},
	{"makefiles", "makefile"},
	{"malloc", "malloc"},
	{"mamp", "mamp"},
	{"management studio", "ssms"},
	{"manifest", "manifest"},
	{"many to many", "many-to-many"},
	{"map", "dictionary"},
	{"mapbox", "mapbox"},
	{"mapkit", "mapkit"},
	{"mapping", "mapping"},
	{"mappings", "mapping"},
	{"mapreduce", "mapreduce"},
	{"maps", "maps"},
	{"margin", "margin"},
	{"mariadb", "mariadb"},
	{"markdown", "markdown"},
	{"market", "google-play"},
	{"marklogic", "marklogic"},
	{"marshal", "marshalling"},
	{"marshaling", "marshalling"},
	{"marshalling", "marshalling"},
	{"mata", "stata"},
	{"match", "match"},
	{"material design", "material-design"},
	{"material theme", "material-design"},
	{"material ui", "material-ui"},
	{"materialize", "materialize"},
	{"materialize css", "materialize"},
	{"materialize js", "materialize"},
	{"materializecss", "materialize"},
	{"math", "math"},
	{"mathematica", "wolfram-mathematica"},
	{"mathematical", "math"},
	{"mathematics", "math"},
	{"maths", "math"},
	{"matlab", "matlab"},
	{"matlab figure", "matlab-figure"},
	{"matlab ide", "matlab"},
	{"matlab path", "matlab"},
	{"matlab toolbox", "matlab"},
	{"matplotlib", "matplotlib"},
	{"matrices", "matrix"},
	{"matrix", "matrix"},
	{"maven", "maven"},
	{"maven 2", "maven-2"},
	{"maven 3", "maven-3"},
	{"maven plugin", "maven-plugin"},
	{"mawk", "awk"},
	{"max", "max"},
	{"max height", "css"},
	{"max width", "css"},
	{"maximum", "max"},
	{"md5", "md5"},
	{"mdb", "ms-access"},
	{"mdx", "mdx"},
	{"mean stack", "mean-stack"},
	{"media", "media"},
	{"media player", "media-player"},
	{"media queries", "media-queries"},
	{"media query", "media-queries"},
	{"mediawiki", "mediawiki"},
	{"memcache", "memcached"},
	{"memcached", "memcached"},
	{"memory", "memory"},
	{"memory allocation", "memory-management"},
	{"memory deallocation", "memory-management"},
	{"memory leak", "memory-leaks"},
	{"memory leaks", "memory-leaks"},
	{"memory management", "memory-management"},
	{"memory usage", "memory-management"},
	{"menu", "menu"},
	{"menus", "menu"},
	{"mercurial", "mercurial"},
	{"merge", "merge"},
	{"merging", "merge"},
	{"message", "message"},
	{"message queue", "message-queue"},
	{"messages", "message"},
	{"metadata", "metadata"},
	{"metaprogramming", "metaprogramming"},
	{"meteor", "meteor"},
	{"meteor.js", "meteor"},
	{"meteorjs", "meteor"},
	{"method", "methods"},
	{"method overloading", "overloading"},
	{"method overriding", "overriding"},
	{"methods", "methods"},
	{"metro", "microsoft-metro"},
	{"metro style app", "microsoft-metro"},
	{"metro ui", "microsoft-metro"},
	{"mfc", "mfc"},
	{"microservices", "microservices"},
	{"microsoft access", "ms-access"},
	{"microsoft dynamics crm", "dynamics-crm"},
	{"microsoft edge", "microsoft-edge"},
	{"microsoft graph", "microsoft-graph"},
	{"microsoft metro", "microsoft-metro"},
	{"microsoft office", "ms-office"},
	{"microsoft office outlook", "outlook"},
	{"microsoft powerpoint", "powerpoint"},
	{"microsoft visual c++", "visual-c++"},
	{"microsoft word", "ms-word"},
	{"microsoftgraph", "microsoft-graph"},
	{"migration", "migration"},
	{"migrations", "migration"},
	{"mime content type", "mime-types"},
	{"mime type", "mime-types"},
	{"mime types", "mime-types"},
	{"min height", "css"},
	{"min width", "css"},
	{"mingw", "mingw"},
	{"mips", "mips"},
	{"mkmapkit", "mapkit"},
	{"mkmapview", "mkmapview"},
	{"mlint", "matlab"},
	{"mma", "wolfram-mathematica"},
	{"mobile", "mobile"},
	{"mobile safari", "mobile-safari"},
	{"mobilefirst", "ibm-mobilefirst"},
	{"mocha", "mocha"},
	{"mock", "mocking"},
	{"mocking", "mocking"},
	{"mocking framework", "mocking"},
	{"mockito", "mockito"},
	{"mocks", "mocking"},
	{"mod rewrite", "mod-rewrite"},
	{"mod wsgi", "mod-wsgi"},
	{"modal", "modal-dialog"},
	{"modal dialog", "modal-dialog"},
	{"model", "model"},
	{"model view controller", "model-view-controller"},
	{"model view viewmodel", "mvvm"},
	{"models", "model"},
	{"module", "module"},
	{"modules", "module"},
	{"moment.js", "momentjs"},
	{"momentjs", "momentjs"},
	{"monad", "monads"},
	{"monads", "monads"},
	{"mongo", "mongodb"},
	{"mongod", "mongodb"},
	{"mongodb", "mongodb"},
	{"mongodb aggregation", "aggregation-framework"},
	{"mongodb arrays", "arrays"},
	{"mongodb query", "mongodb-query"},
	{"mongoid", "mongoid"},
	{"mongoose", "mongoose"},
	{"monitoring", "monitoring"},
	{"mono", "mono"},
	{"monodroid", "xamarin.android"},
	{"monotouch", "xamarin.ios"},
	{"moq", "moq"},
	{"moss 2007", "sharepoint-2007"},
	{"mouse", "mouse"},
	{"mouseevent", "mouseevent"},
	{"movie", "video"},
	{"movies", "video"},
	{"mp3", "mp3"},
	{"mpi", "mpi"},
	{"mqseries", "ibm-mq"},
	{"mqtt", "mqtt"},
	{"ms access", "ms-access"},
	{"ms access 2007", "ms-access-2007"},
	{"ms access 2010", "ms-access-2010"},
	{"ms excel", "excel"},
	{"ms graph", "microsoft-graph"},
	{"ms office", "ms-office"},
	{"ms sql server", "sql-server"},
	{"ms word", "ms-word"},
	{"msbuild", "msbuild"},
	{"mscrm", "dynamics-crm"},
	{"msi", "windows-installer"},
	{"msie", "internet-explorer"},
	{"msie7", "internet-explorer-7"},
	{"msie8", "internet-explorer-8"},
	{"mspowerpoint", "powerpoint"},
	{"msrs", "reporting-services"},
	{"mssql", "sql-server"},
	{"mssql ce", "sql-server-ce"},
	{"mssql2005", "sql-server-2005"},
	{"mssql2008", "sql-server-2008"},
	{"msvc", "visual-c++"},
	{"msvc++", "visual-c++"},
	{"msvc10", "visual-studio-2010"},
	{"msvc11", "visual-studio-2012"},
	{"msvs", "visual-studio"},
	{"mule", "mule"},
	{"multi column", "multiple-columns"},
	{"multi layer perceptron", "neural-network"},
	{"multi threaded", "multithreading"},
	{"multidimensional", "multidimensional-array"},
	{"multidimensional array", "multidimensional-array"},
	{"multipart form", "multipartform-data"},
	{"multipartform data", "multipartform-data"},
	{"multiple backgrounds", "background-image"},
	{"multiple columns", "multiple-columns"},
	{"multiple regression", "linear-regression"},
	{"multiprocessing", "multiprocessing"},
	{"multithread", "multithreading"},
	{"multithreading", "multithreading"},
	{"mutex", "mutex"},
	{"mvc", "model-view-controller"},
	{"mvc core", "asp.net-core-mvc"},
	{"mvc.net", "asp.net-mvc"},
	{"mvc2", "asp.net-mvc-2"},
	{"mvc3", "asp.net-mvc-3"},
	{"mvc4", "asp.net-mvc-4"},
	{"mvc5", "asp.net-mvc-5"},
	{"mvn", "maven"},
	{"mvvm", "mvvm"},
	{"mvvmcross", "mvvmcross"},
	{"my sql", "mysql"},
	{"myphpadmin", "phpmyadmin"},
	{"mysql", "mysql"},
	{"mysql if", "mysql"},
	{"mysql query", "mysql"},
	{"mysql server", "mysql"},
	{"mysql table", "mysql"},
	{"mysql workbench", "mysql-workbench"},
	{"mysqlclient", "mysql"},
	{"mysqld", "mysql"},
	{"mysqldump", "mysql"},
	{"mysqli", "mysqli"},
	{"mysqlsh", "mysql"},
	{"namespace", "namespaces"},
	{"namespaces", "namespaces"},
	{"namespacing", "namespaces"},
	{"naming conventions", "naming-conventions"},
	{"nasm", "nasm"},
	{"native", "native"},
	{"nativescript", "nativescript"},
	{"natural language", "nlp"},
	{"natural language process", "nlp"},
	{"natural language processing", "nlp"},
	{"navbar", "navbar"},
	{"navigation", "navigation"},
	{"navigation drawer", "navigation-drawer"},
	{"nawk", "awk"},
	{"ndarray", "multidimensional-array"},
	{"ndk", "android-ndk"},
	{"negative margin", "margin"},
	{"neo4j", "neo4j"},
	{"neo4j2.0", "neo4j"},
	{"nested", "nested"},
	{"nested array", "multidimensional-array"},
	{"nested divs", "html"},
	{"nested loops", "nested-loops"},
	{"nesting", "nested"},
	{"netbeans", "netbeans"},
	{"netlogo", "netlogo"},
	{"netsuite", "netsuite"},
	{"netty", "netty"},
	{"network", "networking"},
	{"network programming", "network-programming"},
	{"networking", "networking"},
	{"networks", "networking"},
	{"networkx", "networkx"},
	{"neural network", "neural-network"},
	{"neural network tuning", "neural-network"},
	{"newline", "newline"},
	{"newtonsoft", "json.net"},
	{"nfc", "nfc"},
	{"ng repeat", "angularjs-ng-repeat"},
	{"nginx", "nginx"},
	{"nhibernate", "nhibernate"},
	{"nifi", "apache-nifi"},
	{"nil", "null"},
	{"ninject", "ninject"},
	{"nlp", "nlp"},
	{"nltk", "nltk"},
	{"no duplicates", "duplicates"},
	{"node modules", "node-modules"},
	{"node.js", "node.js"},
	{"nodejs", "node.js"},
	{"nodes", "nodes"},
	{"nokogiri", "nokogiri"},
	{"non const", "const"},
	{"nosql", "nosql"},
	{"notepad++", "notepad++"},
	{"notification", "notifications"},
	{"notifications", "notifications"},
	{"npm", "npm"},
	{"npm install", "npm-install"},
	{"npmjs", "npm"},
	{"nsarray", "nsarray"},
	{"nsdate", "nsdate"},
	{"nsdictionary", "nsdictionary"},
	{"nsmutablearray", "nsmutablearray"},
	{"nsstring", "nsstring"},
	{"nsurlconnection", "nsurlconnection"},
	{"nsuserdefaults", "nsuserdefaults"},
	{"nth child", "css-selectors"},
	{"nth of type", "css-selectors"},
	{"nuget", "nuget"},
	{"null", "null"},
	{"nullpointerexception", "nullpointerexception"},
	{"nulls", "null"},
	{"nullvalue", "null"},
	{"number", "numbers"},
	{"number rounding", "rounding"},
	{"numbers", "numbers"},
	{"numeric precision", "precision"},
	{"numpy", "numpy"},
	{"nunit", "nunit"},
	{"nuxt", "nuxt.js"},
	{"nuxt.js", "nuxt.js"},
	{"o notation", "big-o"},
	{"oauth", "oauth"},
	{"oauth 2.0", "oauth-2.0"},
	{"oauth2", "oauth-2.0"},
	{"objc", "objective-c"},
	{"objc arc", "automatic-ref-counting"},
	{"object", "object"},
	{"object orientation", "oop"},
	{"object oriented", "oop"},
	{"object oriented design", "oop"},
	{"object oriented modeling", "oop"},
	{"object pascal", "delphi"},
	{"object relational mapping", "orm"},
	{"objective c", "objective-c"},
	{"objects", "object"},
	{"observable", "observable"},
	{"ocaml", "ocaml"},
	{"ocr", "ocr"},
	{"octave", "octave"},
	{"odata", "odata"},
	{"odbc", "odbc"},
	{"odoo", "odoo"},
	{"office interop", "office-interop"},
	{"office js", "office-js"},
	{"office365", "office365"},
	{"ol", "html-lists"},
	{"oledb", "oledb"},
	{"omp", "openmp"},
	{"onclick", "onclick"},
	{"onclicklistener", "onclicklistener"},
	{"one to many", "one-to-many"},
	{"oo", "oop"},
	{"oo design", "oop"},
	{"ood", "oop"},
	{"oop", "oop"},
	{"oops", "oop"},
	{"ooxml", "openxml"},
	{"open graph protocol", "facebook-opengraph"},
	{"open source", "open-source"},
	{"open source contribution", "open-source"},
	{"open source projects", "open-source"},
	{"opencart", "opencart"},
	{"opencl", "opencl"},
	{"opencv", "opencv"},
	{"openerp", "odoo"},
	{"opengl", "opengl"},
	{"opengl es", "opengl-es"},
	{"opengl es 2.0", "opengl-es-2.0"},
	{"opengles", "opengl-es"},
	{"opengraph", "facebook-opengraph"},
	{"openid", "openid"},
	{"openjdk", "java"},
	{"openlayers", "openlayers"},
	{"openmp", "openmp"},
	{"openpyxl", "openpyxl"},
	{"openshift", "openshift"},
	{"openssl", "openssl"},
	{"openstreetmap", "openstreetmap"},
	{"openui5", "sapui5"},
	{"openxml", "openxml"},
	{"operating system", "operating-system"},
	{"operating systems", "operating-system"},
	{"operator overloading", "operator-overloading"},
	{"operators", "operators"},
	{"opscode", "chef"},
	{"optimisation", "optimization"},
	{"optimization", "optimization"},
	{"optimizations", "optimization"},
	{"optimize", "optimization"},
	{"optimizer", "optimization"},
	{"optimizing", "optimization"},
	{"option button", "radio-button"},
	{"optionbutton", "radio-button"},
	{"oracle", "oracle"},
	{"oracle apex", "oracle-apex"},
	{"oracle sqldeveloper", "oracle-sqldeveloper"},
	{"oracle10g", "oracle10g"},
	{"oracle11g", "oracle11g"},
	{"oracle12c", "oracle12c"},
	{"oraclejdk", "java"},
	{"orchard", "orchardcms"},
	{"orchardcms", "orchardcms"},
	{"order by", "sql-order-by"},
	{"orderby", "sql-order-by"},
	{"ordered list", "html-lists"},
	{"orientation", "orientation"},
	{"orm", "orm"},
	{"os", "operating-system"},
	{"osgi", "osgi"},
	{"osm", "openstreetmap"},
	{"oss", "open-source"},
	{"osx", "macos"},
	{"out of memory", "out-of-memory"},
	{"outfile", "file-io"},
	{"outlook", "outlook"},
	{"outlook addin", "outlook-addin"},
	{"outlook express", "outlook"},
	{"outlook vba", "outlook-vba"},
	{"outofmemoryerror", "out-of-memory"},
	{"outofmemoryexception", "out-of-memory"},
	{"output", "output"},
	{"output file", "file-io"},
	{"output files", "file-io"},
	{"overflow", "overflow"},
	{"overlay", "overlay"},
	{"overlays", "overlay"},
	{"overload", "overloading"},
	{"overloading", "overloading"},
	{"override", "overriding"},
	{"overrides", "overriding"},
	{"overriding", "overriding"},
	{"owin", "owin"},
	{"package", "package"},
	{"packages", "package"},
	{"padding", "padding"},
	{"pagination", "pagination"},
	{"pandas", "pandas"},
	{"pandas groupby", "pandas-groupby"},
	{"panel", "panel"},
	{"panels", "panel"},
	{"paperclip", "paperclip"},
	{"parallel", "parallel-processing"},
	{"parallel computing", "parallel-processing"},
	{"parallel processing", "parallel-processing"},
	{"parallel programming", "parallel-processing"},
	{"parallelism", "parallel-processing"},
	{"parallelization", "parallel-processing"},
	{"param", "parameters"},
	{"parameter", "parameters"},
	{"parameter passing", "parameter-passing"},
	{"parameters", "parameters"},
	{"params", "parameters"},
	{"parent child", "parent-child"},
	{"parse", "parsing"},
	{"parse platform", "parse-platform"},
	{"parser", "parsing"},
	{"parsers", "parsing"},
	{"parsing", "parsing"},
	{"pass by reference", "pass-by-reference"},
	{"passenger", "passenger"},
	{"passing by reference", "pass-by-reference"},
	{"passport.js", "passport.js"},
	{"passportjs", "passport.js"},
	{"password", "passwords"},
	{"passwords", "passwords"},
	{"path", "path"},
	{"paths", "path"},
	{"pattern", "design-patterns"},
	{"pattern matching", "pattern-matching"},
	{"patterns", "design-patterns"},
	{"payment gateway", "payment-gateway"},
	{"paypal", "paypal"},
	{"paypal api", "paypal"},
	{"paypal checkout", "paypal"},
	{"paypal express", "paypal"},
	{"paypal sandbox", "paypal-sandbox"},
	{"paypal sdk", "paypal"},
	{"paypalmerchantsdk", "paypal"},
	{"pdf", "pdf"},
	{"pdf generation", "pdf-generation"},
	{"pdo", "pdo"},
	{"pentaho", "pentaho"},
	{"pentium", "x86"},
	{"perfomance", "performance"},
	{"performance", "performance"},
	{"performance comparison", "performance"},
	{"performance issues", "performance"},
	{"performance measurement", "performance"},
	{"performance monitoring", "performance"},
	{"performance test", "performance-testing"},
	{"performance testing", "performance-testing"},
	{"performance tuning", "performance"},
	{"perl", "perl"},
	{"perl regex", "regex"},
	{"perl5", "perl"},
	{"perlre", "regex"},
	{"permission", "permissions"},
	{"permissions", "permissions"},
	{"permutation", "permutation"},
	{"permutations", "permutation"},
	{"persistence", "persistence"},
	{"pgrep", "grep"},
	{"pgsql", "postgresql"},
	{"phantomjs", "phantomjs"},
	{"phoenix framework", "phoenix-framework"},
	{"phonegap plugins", "phonegap-plugins"},
	{"php", "php"},
	{"php cgi", "php"},
	{"php cli", "php"},
	{"php date", "php"},
	{"php errors", "php"},
	{"php fpm", "php"},
	{"php frameworks", "php"},
	{"php functions", "php"},
	{"php include", "php"},
	{"php mail", "php"},
	{"php mysqli", "mysqli"},
	{"php namespaces", "php"},
	{"php oop", "php"},
	{"php readfile", "php"},
	{"php references", "reference"},
	{"php session", "php"},
	{"php yii", "yii"},
	{"php.ini", "php"},
	{"php5", "php"},
	{"phpdoctrine", "doctrine"},
	{"phpexcel", "phpexcel"},
	{"phpmailer", "phpmailer"},
	{"phpmyadmin", "phpmyadmin"},
	{"phpstorm", "phpstorm"},
	{"phpunit", "phpunit"},
	{"phtml", "php"},
	{"phusion passenger", "passenger"},
	{"pickle", "pickle"},
	{"pickle dump", "pickle"},
	{"picture", "image"},
	{"pictures", "image"},
	{"pig", "apache-pig"},
	{"piglatin", "apache-pig"},
	{"pil", "python-imaging-library"},
	{"pillow", "python-imaging-library"},
	{"pinvoke", "pinvoke"},
	{"pip", "pip"},
	{"pip3", "pip"},
	{"pipe", "pipe"},
	{"pipes", "pipe"},
	{"piping", "pipe"},
	{"pivot", "pivot"},
	{"pivot table", "pivot-table"},
	{"play mvc", "playframework"},
	{"playframework", "playframework"},
	{"playframework 2.0", "playframework-2.0"},
	{"plist", "plist"},
	{"plot", "plot"},
	{"plotly", "plotly"},
	{"plotting", "plot"},
	{"plpgsql", "plpgsql"},
	{"plsql", "plsql"},
	{"plt", "matplotlib"},
	{"plt scheme", "racket"},
	{"plugin", "plugins"},
	{"plugins", "plugins"},
	{"png", "png"},
	{"poi", "apache-poi"},
	{"pointer", "pointers"},
	{"pointer to function", "function-pointers"},
	{"pointers", "pointers"},
	{"polygon", "polygon"},
	{"polygons", "polygon"},
	{"polymer", "polymer"},
	{"polymorphic", "polymorphism"},
	{"polymorphism", "polymorphism"},
	{"pom", "pom.xml"},
	{"pom.xml", "pom.xml"},
	{"pop up", "popup"},
	{"popup", "popup"},
	{"port", "port"},
	{"ports", "port"},
	{"position", "position"},
	{"position fixed", "css-position"},
	{"posix", "posix"},
	{"post", "post"},
	{"post request", "http-post"},
	{"postgis", "postgis"},
	{"postgres", "postgresql"},
	{"postgresql", "postgresql"},
	{"postman", "postman"},
	{"powerbi", "powerbi"},
	{"powerpoint", "powerpoint"},
	{"powershell", "powershell"},
	{"powershell 2.0", "powershell-2.0"},
	{"ppt", "powerpoint"},
	{"pptx", "powerpoint"},
	{"precision", "precision"},
	{"preg match", "preg-match"},
	{"preg replace", "preg-replace"},
	{"prepare", "prepared-statement"},
	{"prepared statement", "prepared-statement"},
	{"prepared statements", "prepared-statement"},
	{"prestashop", "prestashop"},
	{"primary key", "primary-key"},
	{"primary keys", "primary-key"},
	{"primefaces", "primefaces"},
	{"print", "printing"},
	{"printer", "printing"},
	{"printf", "printf"},
	{"printing", "printing"},
	{"prism", "prism"},
	{"prng", "random"},
	{"probability", "probability"},
	{"process", "process"},
	{"processes", "process"},
	{"processing", "processing"},
	{"processing.org", "processing"},
	{"product", "product"},
	{"products", "product"},
	{"profiling", "profiling"},
	{"profiling tools", "profiling"},
	{"programming languages", "programming-languages"},
	{"programming style", "coding-style"},
	{"progress bar", "progress-bar"},
	{"progressive web apps", "progressive-web-apps"},
	{"proguard", "proguard"},
	{"project", "project"},
	{"projects", "project"},
	{"prolog", "prolog"},
	{"promise", "promise"},
	{"properties", "properties"},
	{"property", "properties"},
	{"protobuf", "protocol-buffers"},
	{"protobufs", "protocol-buffers"},
	{"protocol", "protocols"},
	{"protocol buffers", "protocol-buffers"},
	{"protocols", "protocols"},
	{"prototype", "prototype"},
	{"prototypes", "prototype"},
	{"protractor", "protractor"},
	{"proxy", "proxy"},
	{"pseudo random numbers", "random"},
	{"pseudo selectors", "css-selectors"},
	{"pthread", "pthreads"},
	{"pthreads", "pthreads"},
	{"ptr", "pointers"},
	{"pug", "pug"},
	{"pugjs", "pug"},
	{"puppet", "puppet"},
	{"puppeteer", "puppeteer"},
	{"push", "push"},
	{"push notification", "push-notification"},
	{"push notifications", "push-notification"},
	{"pwa", "progressive-web-apps"},
	{"py", "python"},
	{"py.test", "pytest"},
	{"py3", "python-3.x"},
	{"py3k", "python-3.x"},
	{"pycharm", "pycharm"},
	{"pygame", "pygame"},
	{"pyinstaller", "pyinstaller"},
	{"pylab", "matplotlib"},
	{"pymongo", "pymongo"},
	{"pyplot", "matplotlib"},
	{"pyqt", "pyqt"},
	{"pyqt4", "pyqt4"},
	{"pyqt5", "pyqt5"},
	{"pyside", "pyside"},
	{"pyspark", "pyspark"},
	{"pytest", "pytest"},
	{"python", "python"},
	{"python 2.7", "python-2.7"},
	{"python 3", "python-3.x"},
	{"python 3.5", "python-3.5"},
	{"python 3.5.2", "python-3.5"},
	{"python 3.6", "python-3.6"},
	{"python 3.7", "python-3.7"},
	{"python asyncio", "python-asyncio"},
	{"python bigquery", "google-bigquery"},
	{"python ctypes", "ctypes"},
	{"python imaging library", "python-imaging-library"},
	{"python import", "python-import"},
	{"python interpreter", "python"},
	{"python list", "list"},
	{"python multiprocessing", "python-multiprocessing"},
	{"python pil", "python-imaging-library"},
	{"python requests", "python-requests"},
	{"python shell", "python"},
	{"python subprocess module", "subprocess"},
	{"python3", "python-3.x"},
	{"python3k", "python-3.x"},
	{"pythonic", "python"},
	{"pytorch", "pytorch"},
	{"qml", "qml"},
	{"qplot", "ggplot2"},
	{"qr code", "qr-code"},
	{"qt", "qt"},
	{"qt creator", "qt-creator"},
	{"qt4", "qt4"},
	{"qt5", "qt5"},
	{"quartz graphics", "core-graphics"},
	{"quartz scheduler", "quartz-scheduler"},
	{"query optimization", "query-optimization"},
	{"query string", "query-string"},
	{"queryset", "django-queryset"},
	{"queue", "queue"},
	{"r", "r"},
	{"r language", "r"},
	{"r markdown", "r-markdown"},
	{"rabbitmq", "rabbitmq"},
	{"racket", "racket"},
	{"radio button", "radio-button"},
	{"radiobutton", "radio-button"},
	{"rails", "ruby-on-rails"},
	{"rails activerecord", "rails-activerecord"},
	{"rails3", "ruby-on-rails-3"},
	{"rails5", "ruby-on-rails-5"},
	{"rake", "rake"},
	{"rand", "random"},
	{"random", "random"},
	{"random alpha generator", "random"},
	{"random generator", "random"},
	{"random number", "random"},
	{"random number generator", "random"},
	{"random numbers", "random"},
	{"random sample", "random"},
	{"random string", "random"},
	{"random string generator", "random"},
	{"range", "range"},
	{"ranges", "range"},
	{"raphael", "raphael"},
	{"raphael js", "raphael"},
	{"raspberry pi", "raspberry-pi"},
	{"raspberry pi3", "raspberry-pi3"},
	{"razor", "razor"},
	{"razor web pages", "razor"},
	{"rbindlist", "data.table"},
	{"rdd", "rdd"},
	{"rdf", "rdf"},
	{"react", "reactjs"},
	{"react hooks", "react-hooks"},
	{"react jsx", "reactjs"},
	{"react native", "react-native"},
	{"react native android", "react-native-android"},
	{"react navigation", "react-navigation"},
	{"react redux", "react-redux"},
	{"react router", "react-router"},
	{"reactive extensions", "system.reactive"},
	{"reactive programming", "reactive-programming"},
	{"reactjs", "reactjs"},
	{"real time", "real-time"},
	{"realm", "realm"},
	{"realm cocoa", "realm"},
	{"realm net", "realm"},
	{"realm.io", "realm"},
	{"realmswift", "realm"},
	{"recaptcha", "recaptcha"},
	{"rectangular arrays", "multidimensional-array"},
	{"recursion", "recursion"},
	{"recursive", "recursion"},
	{"recyclerview", "android-recyclerview"},
	{"recyclerview layout", "android-recyclerview"},
	{"redhat", "redhat"},
	{"redirect", "redirect"},
	{"redirecting", "redirect"},
	{"redirection", "redirect"},
	{"redirects", "redirect"},
	{"redis", "redis"},
	{"redshift", "amazon-redshift"},
	{"redux", "redux"},
	{"refactor", "refactoring"},
	{"refactoring", "refactoring"},
	{"reference", "reference"},
	{"references", "reference"},
	{"reflection", "reflection"},
	{"refresh", "refresh"},
	{"regex", "regex"},
	{"regex php", "regex"},
	{"regexes", "regex"},
	{"regexp", "regex"},
	{"registry", "registry"},
	{"regression", "regression"},
	{"regular expression", "regex"},
	{"regular expressions", "regex"},
	{"regularexpression", "regex"},
	{"relational database", "relational-database"},
	{"relationship", "relationship"},
	{"relationships", "relationship"},
	{"relative positioning", "css-position"},
	{"removeclass", "jquery"},
	{"rename", "rename"},
	{"renaming", "rename"},
	{"render", "render"},
	{"rendering", "rendering"},
	{"replace", "replace"},
	{"replacement", "replace"},
	{"replication", "replication"},
	{"report", "report"},
	{"reporting", "reporting"},
	{"reporting service", "reporting-services"},
	{"reporting services", "reporting-services"},
	{"reportingservices 2008", "ssrs-2008"},
	{"reports", "report"},
	{"repositories", "repository"},
	{"repository", "repository"},
	{"repository pattern", "repository-pattern"},
	{"request", "request"},
	{"requests", "python-requests"},
	{"require.js", "requirejs"},
	{"requirejs", "requirejs"},
	{"resharper", "resharper"},
	{"resize", "resize"},
	{"resizing", "resize"},
	{"resource", "resources"},
	{"resources", "resources"},
	{"response", "response"},
	{"responsive", "responsive"},
	{"responsive design", "responsive-design"},
	{"rest", "rest"},
	{"rest api", "rest"},
	{"restful", "rest"},
	{"restful architecture", "rest"},
	{"restful web services", "rest"},
	{"retrofit", "retrofit"},
	{"retrofit2", "retrofit2"},
	{"return", "return"},
	{"return statement", "return"},
	{"return value", "return-value"},
	{"reverse engineering", "reverse-engineering"},
	{"reverse proxy", "reverse-proxy"},
	{"revision control", "version-control"},
	{"rewrite", "url-rewriting"},
	{"rewrite url", "url-rewriting"},
	{"rewritebase", "mod-rewrite"},
	{"rewritecond", "mod-rewrite"},
	{"rewriteengine", "mod-rewrite"},
	{"rewritemap", "mod-rewrite"},
	{"rewriterule", "mod-rewrite"},
	{"richfaces", "richfaces"},
	{"richtextbox", "richtextbox"},
	{"rmarkdown", "r-markdown"},
	{"rng", "random"},
	{"robotframework", "robotframework"},
	{"ror", "ruby-on-rails"},
	{"ror3", "ruby-on-rails-3"},
	{"rotate", "rotation"},
	{"rotateanimation", "animation"},
	{"rotating", "rotation"},
	{"rotation", "rotation"},
	{"round", "rounding"},
	{"rounding", "rounding"},
	{"route", "routes"},
	{"routes", "routes"},
	{"routing", "routing"},
	{"row", "row"},
	{"rows", "rows"},
	{"rowspan", "html-table"},
	{"rs232", "serial-port"},
	{"rsa", "rsa"},
	{"rspec", "rspec"},
	{"rss", "rss"},
	{"rssfeed", "rss"},
	{"rstats", "r"},
	{"rstudio", "rstudio"},
	{"ruby", "ruby"},
	{"ruby on rails", "ruby-on-rails"},
	{"ruby on rails 3", "ruby-on-rails-3"},
	{"ruby on rails 3.1", "ruby-on-rails-3.1"},
	{"ruby on rails 3.2", "ruby-on-rails-3.2"},
	{"ruby on rails 3.2.1", "ruby-on-rails-3.2"},
	{"ruby on rails 4", "ruby-on-rails-4"},
	{"ruby on rails 5", "ruby-on-rails-5"},
	{"ruby on rails gems", "rubygems"},
	{"rubygems", "rubygems"},
	{"running time", "performance"},
	{"runtime", "runtime"},
	{"runtime error", "runtime-error"},
	{"rust", "rust"},
	{"rvm", "rvm"},
	{"rx", "system.reactive"},
	{"rx java", "rx-java"},
	{"rx java2", "rx-java2"},
	{"rxjs", "rxjs"},
	{"s3", "amazon-s3"},
	{"s3 bucket", "amazon-s3"},
	{"safari", "safari"},
	{"safari bug", "safari"},
	{"sails", "sails.js"},
	{"sails.js", "sails.js"},
	{"sailsjs", "sails.js"},
	{"salesforce", "salesforce"},
	{"salesforce.com", "salesforce"},
	{"sap", "sap"},
	{"sap crystal reports", "crystal-reports"},
	{"sapui", "sapui5"},
	{"sapui5", "sapui5"},
	{"sas", "sas"},
	{"sass", "sass"},
	{"save", "save"},
	{"saving", "save"},
	{"sbt", "sbt"},
	{"scala", "scala"},
	{"scala generics", "generics"},
	{"scalar function", "user-defined-functions"},
	{"scalar udf", "user-defined-functions"},
	{"scalar valued functions", "user-defined-functions"},
	{"scale", "scale"},
	{"scaleanimation", "animation"},
	{"scanf", "scanf"},
	{"scc", "version-control"},
	{"sccs", "version-control"},
	{"scenekit", "scenekit"},
	{"scheduled tasks", "scheduled-tasks"},
	{"schema", "schema"},
	{"schema design", "database-design"},
	{"schemas", "schema"},
	{"scheme", "scheme"},
	{"scikit learn", "scikit-learn"},
	{"scikits learn", "scikit-learn"},
	{"scipy", "scipy"},
	{"scm", "version-control"},
	{"scope", "scope"},
	{"scraper", "web-scraping"},
	{"scraping", "screen-scraping"},
	{"scrapy", "scrapy"},
	{"scrapy spider", "scrapy"},
	{"screen", "screen"},
	{"screen scraping", "screen-scraping"},
	{"screens", "screen"},
	{"screenshot", "screenshot"},
	{"scripting", "scripting"},
	{"scripts", "scripting"},
	{"scroll", "scroll"},
	{"scrollbar", "scrollbar"},
	{"scrollbars", "scrollbar"},
	{"scrolling", "scroll"},
	{"scrollview", "scrollview"},
	{"scss", "sass"},
	{"sdk", "sdk"},
	{"sdl", "sdl"},
	{"seaborn", "seaborn"},
	{"search", "search"},
	{"search and replace", "replace"},
	{"searching", "search"},
	{"secure", "security"},
	{"security", "security"},
	{"sed", "sed"},
	{"segfault", "segmentation-fault"},
	{"segmentation fault", "segmentation-fault"},
	{"segue", "segue"},
	{"select", "select"},
	{"select query", "select"},
	{"select statement", "sql"},
	{"select tag", "html-select"},
	{"select2", "jquery-select2"},
	{"selectbox", "drop-down-menu"},
	{"selection", "selection"},
	{"selector", "selector"},
	{"selectors", "css-selectors"},
	{"selenium", "selenium"},
	{"selenium chromedriver", "selenium-chromedriver"},
	{"selenium webdriver", "selenium-webdriver"},
	{"selenium webdriver java", "selenium-webdriver"},
	{"selenium2", "selenium-webdriver"},
	{"sencha", "extjs"},
	{"sencha touch", "sencha-touch"},
	{"sencha touch 2", "sencha-touch-2"},
	{"seo", "seo"},
	{"seo friendly", "seo"},
	{"sequelize", "sequelize.js"},
	{"sequelize.js", "sequelize.js"},
	{"sequence", "sequence"},
	{"sequences", "sequence"},
	{"serial port", "serial-port"},
	{"serialisation", "serialization"},
	{"serialization", "serialization"},
	{"serialize", "serialization"},
	{"serialized", "serialization"},
	{"serializing", "serialization"},
	{"serialze", "serialization"},
	{"server", "server"},
	{"server client", "client-server"},
	{"service", "service"},
	{"service worker", "service-worker"},
	{"services", "service"},
	{"servicestack", "servicestack"},
	{"servlet", "servlets"},
	{"servletcontext", "servlets"},
	{"servlets", "servlets"},
	{"session", "session"},
	{"session cookie", "session-cookies"},
	{"session cookies", "session-cookies"},
	{"session variables", "session-variables"},
	{"sessions", "session"},
	{"set", "set"},
	{"setinterval", "setinterval"},
	{"sets", "set"},
	{"settimeout", "settimeout"},
	{"setting", "settings"},
	{"settings", "settings"},
	{"setup", "installation"},
	{"sftp", "sftp"},
	{"sh", "sh"},
	{"shader", "shader"},
	{"shaders", "shader"},
	{"share", "share"},
	{"shared libraries", "shared-libraries"},
	{"shared library", "shared-libraries"},
	{"sharedpreferences", "sharedpreferences"},
	{"sharepoint", "sharepoint"},
	{"sharepoint 2007", "sharepoint-2007"},
	{"sharepoint 2010", "sharepoint-2010"},
	{"sharepoint 2013", "sharepoint-2013"},
	{"sheets", "google-sheets"},
	{"shell", "shell"},
	{"shell command", "shell"},
	{"shell commands", "shell"},
	{"shell script", "shell"},
	{"shell scripting", "shell"},
	{"shellscript", "shell"},
	{"shiny", "shiny"},
	{"shopify", "shopify"},
	{"short message service", "sms"},
	{"shortcut key", "keyboard-shortcuts"},
	{"signal", "signals"},
	{"signal processing", "signal-processing"},
	{"signalr", "signalr"},
	{"signals", "signals"},
	{"sigsegv", "segmentation-fault"},
	{"silverlight", "silverlight"},
	{"silverlight 4", "silverlight-4.0"},
	{"silverlight 4.0", "silverlight-4.0"},
	{"simple build tool", "sbt"},
	{"simplexml", "simplexml"},
	{"simplexml load string", "simplexml"},
	{"simplexmlelement", "simplexml"},
	{"simulation", "simulation"},
	{"sinatra", "sinatra"},
	{"single page application", "single-page-application"},
	{"single sign on", "single-sign-on"},
	{"singleton", "singleton"},
	{"singleton class", "singleton"},
	{"singleton methods", "singleton"},
	{"sitecore", "sitecore"},
	{"size", "size"},
	{"sklearn", "scikit-learn"},
	{"slice", "slice"},
	{"slices", "slice"},
	{"slicing", "slice"},
	{"slider", "slider"},
	{"sliders", "slider"},
	{"slideshow", "slideshow"},
	{"slow", "performance"},
	{"slow load", "performance"},
	{"slowness", "performance"},
	{"smarty", "smarty"},
	{"sms", "sms"},
	{"smtp", "smtp"},
	{"snprintf", "printf"},
	{"so", "shared-libraries"},
	{"soap", "soap"},
	{"soapui", "soapui"},
	{"socket", "sockets"},
	{"socket programming", "sockets"},
	{"socket.io", "socket.io"},
	{"socketio", "socket.io"},
	{"sockets", "sockets"},
	{"software architecture", "architecture"},
	{"software testing", "testing"},
	{"solr", "solr"},
	{"solution architecture", "architecture"},
	{"sonar", "sonarqube"},
	{"sonarqube", "sonarqube"},
	{"sort", "sorting"},
	{"sortable", "jquery-ui-sortable"},
	{"sorted", "sorting"},
	{"sorting", "sorting"},
	{"sorting algorithm", "sorting"},
	{"sound", "audio"},
	{"sound api", "audio"},
	{"sounds", "audio"},
	{"source code control", "version-control"},
	{"source code management", "version-control"},
	{"source control", "version-control"},
	{"spa", "single-page-application"},
	{"spaghetti code", "coding-style"},
	{"span", "html"},
	{"spark", "apache-spark"},
	{"spark cluster framework", "apache-spark"},
	{"spark dataframe", "apache-spark-sql"},
	{"spark sql", "apache-spark-sql"},
	{"spark streaming", "spark-streaming"},
	{"sparql", "sparql"},
	{"sparse", "sparse-matrix"},
	{"sparse array", "sparse-matrix"},
	{"sparse columns", "sparse-matrix"},
	{"sparse matrix", "sparse-matrix"},
	{"special characters", "special-characters"},
	{"speech recognition", "speech-recognition"},
	{"speed", "performance"},
	{"speed up", "performance"},
	{"spider", "web-crawler"},
	{"spinner", "spinner"},
	{"split", "split"},
	{"splitting", "split"},
	{"spring", "spring"},
	{"spring batch", "spring-batch"},
	{"spring boot", "spring-boot"},
	{"spring cloud", "spring-cloud"},
	{"spring config", "spring"},
	{"spring data", "spring-data"},
	{"spring data jpa", "spring-data-jpa"},
	{"spring framework", "spring"},
	{"spring integration", "spring-integration"},
	{"spring java config", "spring"},
	{"spring jpa", "spring-data-jpa"},
	{"spring mvc", "spring-mvc"},
	{"spring security", "spring-security"},
	{"spring web", "spring-mvc"},
	{"sprintf", "printf"},
	{"sprite", "sprite"},
	{"sprite kit", "sprite-kit"},
	{"sprites", "sprite"},
	{"sproc", "stored-procedures"},
	{"spyder", "spyder"},
	{"sql", "sql"},
	{"sql azure", "azure-sql-database"},
	{"sql ce", "sql-server-ce"},
	{"sql compact", "sql-server-ce"},
	{"sql developer", "oracle-sqldeveloper"},
	{"sql injection", "sql-injection"},
	{"sql insert", "sql-insert"},
	{"sql join", "join"},
	{"sql management studio", "ssms"},
	{"sql mobile", "sql-server-ce"},
	{"sql order by", "sql-order-by"},
	{"sql postgres", "postgresql"},
	{"sql query", "sql"},
	{"sql reporting services", "reporting-services"},
	{"sql select", "sql"},
	{"sql server", "sql-server"},
	{"sql server 2005", "sql-server-2005"},
	{"sql server 2008", "sql-server-2008"},
	{"sql server 2008 r2", "sql-server-2008-r2"},
	{"sql server 2012", "sql-server-2012"},
	{"sql server 2014", "sql-server-2014"},
	{"sql server 2016", "sql-server-2016"},
	{"sql server ce", "sql-server-ce"},
	{"sql server compact", "sql-server-ce"},
	{"sql srever", "sql-server"},
	{"sql statement", "sql"},
	{"sql syntax", "sql"},
	{"sql to entity framework", "entity-framework"},
	{"sql to linq", "linq-to-sql"},
	{"sql triggers", "triggers"},
	{"sql update", "sql-update"},
	{"sql2005", "sql-server-2005"},
	{"sql2008", "sql-server-2008"},
	{"sql2008r2", "sql-server-2008-r2"},
	{"sql2016", "sql-server-2016"},
	{"sqlalchemy", "sqlalchemy"},
	{"sqlite", "sqlite"},
	{"sqlite3", "sqlite"},
	{"sqlitedatabase", "sqlite"},
	{"sqllite", "sqlite"},
	{"sqlselect", "sql"},
	{"sqlservermanagementstudio", "ssms"},
	{"ssas", "ssas"},
	{"sscanf", "scanf"},
	{"ssh", "ssh"},
	{"ssis", "ssis"},
	{"ssis data transformations", "ssis"},
	{"ssis development", "ssis"},
	{"ssl", "ssl"},
	{"ssl certificate", "ssl-certificate"},
	{"ssms", "ssms"},
	{"ssms 2008", "sql-server-2008"},
	{"sso", "single-sign-on"},
	{"ssrs", "reporting-services"},
	{"ssrs 2008", "ssrs-2008"},
	{"ssrs 2012", "ssrs-2012"},
	{"ssrs reports", "reporting-services"},
	{"stack", "stack"},
	{"stack overflow", "stack-overflow"},
	{"stackoverflowerror", "stack-overflow"},
	{"stackoverflowexception", "stack-overflow"},
	{"stacks", "stack"},
	{"standard", "standards"},
	{"standards", "standards"},
	{"stanford nlp", "stanford-nlp"},
	{"stanford nlp server", "stanford-nlp"},
	{"stanford parser", "stanford-nlp"},
	{"stata", "stata"},
	{"state", "state"},
	{"states", "state"},
	{"static", "static"},
	{"static array", "arrays"},
	{"static libraries", "static-libraries"},
	{"static library", "static-libraries"},
	{"static vs non static", "static"},
	{"statistical analysis", "statistics"},
	{"statistics", "statistics"},
	{"stats", "statistics"},
	{"std", "std"},
	{"stdin", "stdin"},
	{"stdlib", "std"},
	{"stdout", "stdout"},
	{"stl", "stl"},
	{"stl containers", "stl"},
	{"storage", "storage"},
	{"stored procedure", "stored-procedures"},
	{"stored procedures", "stored-procedures"},
	{"storing", "storage"},
	{"storyboard", "storyboard"},
	{"str", "string"},
	{"stream", "stream"},
	{"streaming", "streaming"},
	{"streams", "stream"},
	{"string", "string"},
	{"string array", "arrays"},
	{"string escaping", "escaping"},
	{"string formatting", "string-formatting"},
	{"string hashing", "hash"},
	{"string manipulation", "string"},
	{"string replacement", "replace"},
	{"string slice", "slice"},
	{"string split", "split"},
	{"stringformat", "string-formatting"},
	{"strings", "string"},
	{"stripe connect", "stripe-payments"},
	{"stripe payments", "stripe-payments"},
	{"stripe.js", "stripe-payments"},
	{"stripe.net", "stripe-payments"},
	{"struct", "struct"},
	{"structs", "struct"},
	{"structure", "structure"},
	{"structures", "structure"},
	{"struts", "struts"},
	{"struts 2", "struts2"},
	{"struts2", "struts2"},
	{"style", "styles"},
	{"style.css template file", "css"},
	{"styles", "styles"},
	{"sub arrays", "arrays"},
	{"subclass", "subclass"},
	{"subclasses", "subclass"},
	{"subdomain", "subdomain"},
	{"subdomains", "subdomain"},
	{"sublimetext", "sublimetext"},
	{"sublimetext2", "sublimetext2"},
	{"sublimetext3", "sublimetext3"},
	{"submit", "submit"},
	{"subprocess", "subprocess"},
	{"subprocesses", "subprocess"},
	{"subqueries", "subquery"},
	{"subquery", "subquery"},
	{"subselect", "subquery"},
	{"subset", "subset"},
	{"subsetting", "subset"},
	{"substring", "substring"},
	{"substrings", "substring"},
	{"subversion", "svn"},
	{"sum", "sum"},
	{"support vector machines", "svm"},
	{"svg", "svg"},
	{"svg path", "svg"},
	{"svgz", "svg"},
	{"svm", "svm"},
	{"svn", "svn"},
	{"swagger", "swagger"},
	{"swf", "flash"},
	{"swift", "swift"},
	{"swift array", "arrays"},
	{"swift generics", "generics"},
	{"swift ios", "swift"},
	{"swift language", "swift"},
	{"swift1.2", "swift"},
	{"swift2", "swift2"},
	{"swift2.0", "swift2"},
	{"swift2.1", "swift2"},
	{"swift2.2", "swift2"},
	{"swift2.2.1", "swift2"},
	{"swift3", "swift3"},
	{"swift3.0", "swift3"},
	{"swift3.0.1", "swift3"},
	{"swift3.0.2", "swift3"},
	{"swift3.1", "swift3"},
	{"swift4", "swift4"},
	{"swiftui", "swiftui"},
	{"swing", "swing"},
	{"switch", "switch-statement"},
	{"switch case", "switch-statement"},
	{"switch statement", "switch-statement"},
	{"swt", "swt"},
	{"swtoolkit", "swt"},
	{"sybase", "sybase"},
	{"symbol", "symbols"},
	{"symbols", "symbols"},
	{"symfony", "symfony"},
	{"symfony1", "symfony1"},
	{"symfony2", "symfony"},
	{"symfony3", "symfony"},
	{"symfony4", "symfony4"},
	{"sympy", "sympy"},
	{"sync", "synchronization"},
	{"synchronization", "synchronization"},
	{"syntax", "syntax"},
	{"syntax error", "syntax-error"},
	{"syntax highlighting", "syntax-highlighting"},
	{"system", "system"},
	{"system architecture", "architecture"},
	{"system.reactive", "system.reactive"},
	{"systems", "system"},
	{"t9n", "translation"},
	{"tab", "tabs"},
	{"table design", "database-design"},
	{"table udf", "user-defined-functions"},
	{"table value function", "user-defined-functions"},
	{"table value functions", "user-defined-functions"},
	{"table valued function", "user-defined-functions"},
	{"table valued functions", "user-defined-functions"},
	{"tableau", "tableau"},
	{"tableview", "tableview"},
	{"tableviewcell", "uitableview"},
	{"tabs", "tabs"},
	{"tag", "tags"},
	{"tags", "tags"},
	{"task", "task"},
	{"task parallel library", "task-parallel-library"},
	{"task scheduler", "scheduled-tasks"},
	{"task scheduling", "scheduled-tasks"},
	{"tasks", "task"},
	{"tcl", "tcl"},
	{"tcp", "tcp"},
	{"tcp ip", "tcp"},
	{"tcpip", "tcp"},
	{"td", "html-table"},
	{"tdd", "tdd"},
	{"team foundation", "tfs"},
	{"team foundation server", "tfs"},
	{"team foundation service", "azure-devops"},
	{"teamcity", "teamcity"},
	{"telerik", "telerik"},
	{"template", "templates"},
	{"templates", "templates"},
	{"tensorflow", "tensorflow"},
	{"tensorflow gpu", "tensorflow"},
	{"teradata", "teradata"},
	{"terminal", "terminal"},
	{"terminals", "terminal"},
	{"terraform", "terraform"},
	{"tesseract", "tesseract"},
	{"test", "testing"},
	{"test driven", "tdd"},
	{"testacular", "karma-runner"},
	{"testdrivendesign", "tdd"},
	{"testdrivendevelopment", "tdd"},
	{"testing", "testing"},
	{"testng", "testng"},
	{"tests", "testing"},
	{"text", "text"},
	{"text analysis", "nlp"},
	{"text file", "text-files"},
	{"text files", "text-files"},
	{"text message", "sms"},
	{"text messages", "sms"},
	{"text replacement", "replace"},
	{"textarea", "textarea"},
	{"textbox", "textbox"},
	{"textboxes", "textbox"},
	{"textfield", "textfield"},
	{"texture", "textures"},
	{"textures", "textures"},
	{"textview", "textview"},
	{"tfs", "tfs"},
	{"tfs service", "azure-devops"},
	{"tfs vnext", "azure-pipelines"},
	{"theme", "themes"},
	{"themes", "themes"},
	{"thread", "multithreading"},
	{"thread safe", "thread-safety"},
	{"thread safety", "thread-safety"},
	{"threading", "multithreading"},
	{"threadpool", "threadpool"},
	{"threads", "multithreading"},
	{"threadsafe", "thread-safety"},
	{"three.js", "three.js"},
	{"thumbnails", "thumbnails"},
	{"thymeleaf", "thymeleaf"},
	{"tidyverse", "tidyverse"},
	{"time", "time"},
	{"time complexity", "time-complexity"},
	{"time series", "time-series"},
	{"time tag", "html"},
	{"timeout", "timeout"},
	{"timer", "timer"},
	{"timers", "timer"},
	{"timestamp", "timestamp"},
	{"timestamps", "timestamp"},
	{"timezone", "timezone"},
	{"timezoneinfo", "timezone"},
	{"timezones", "timezone"},
	{"tinymce", "tinymce"},
	{"titanium", "titanium"},
	{"tkinter", "tkinter"},
	{"tls", "ssl"},
	{"toggle", "toggle"},
	{"toggleclass", "jquery"},
	{"token", "token"},
	{"tokens", "token"},
	{"tomcat", "tomcat"},
	{"tomcat7", "tomcat7"},
	{"toolbar", "toolbar"},
	{"toolbars", "toolbar"},
	{"tooltip", "tooltip"},
	{"tooltips", "tooltip"},
	{"tornado", "tornado"},
	{"tortoise", "tortoisesvn"},
	{"tortoisesvn", "tortoisesvn"},
	{"touch", "touch"},
	{"tpl", "task-parallel-library"},
	{"transact sql", "tsql"},
	{"transaction", "transactions"},
	{"transactional", "transactions"},
	{"transactions", "transactions"},
	{"transform", "transform"},
	{"transition", "transition"},
	{"transitions", "transition"},
	{"translation", "translation"},
	{"transparency", "transparency"},
	{"travis", "travis-ci"},
	{"travis ci", "travis-ci"},
	{"tree", "tree"},
	{"trees", "tree"},
	{"treeview", "treeview"},
	{"trigger", "triggers"},
	{"triggers", "triggers"},
	{"try", "try-catch"},
	{"try catch", "try-catch"},
	{"try catch throw", "try-catch"},
	{"try statement", "try-catch"},
	{"tsql", "tsql"},
	{"tsv", "csv"},
	{"tsvn", "tortoisesvn"},
	{"tuning", "performance"},
	{"tuple", "tuples"},
	{"tuples", "tuples"},
	{"twig", "twig"},
	{"twilio", "twilio"},
	{"twisted", "twisted"},
	{"twitter", "twitter"},
	{"twitter api", "twitter"},
	{"twitter bootstrap", "twitter-bootstrap"},
	{"twitter bootstrap 3", "twitter-bootstrap-3"},
	{"twitter bootstrap 3.0", "twitter-bootstrap-3"},
	{"twitter bootstrap 3.0.2", "twitter-bootstrap-3"},
	{"twitter bootstrap 4", "bootstrap-4"},
	{"twitter rest api", "twitter"},
	{"type", "types"},
	{"type casting", "casting"},
	{"type conversion", "type-conversion"},
	{"typecast", "casting"},
	{"typeconverting", "type-conversion"},
	{"typeerror", "typeerror"},
	{"types", "types"},
	{"typescript", "typescript"},
	{"typo3", "typo3"},
	{"ubuntu", "ubuntu"},
	{"ubuntu 14.04", "ubuntu-14.04"},
	{"ubuntu 16.04", "ubuntu-16.04"},
	{"udf", "user-defined-functions"},
	{"udp", "udp"},
	{"ugly code", "coding-style"},
	{"ui", "user-interface"},
	{"ui router", "angular-ui-router"},
	{"ui5", "sapui5"},
	{"uibutton", "uibutton"},
	{"uicollectionview", "uicollectionview"},
	{"uicollectionviewcell", "uicollectionviewcell"},
	{"uigesturerecognizer", "uigesturerecognizer"},
	{"uiimage", "uiimage"},
	{"uiimagepickercontroller", "uiimagepickercontroller"},
	{"uiimageview", "uiimageview"},
	{"uikit", "uikit"},
	{"uilabel", "uilabel"},
	{"uimapview", "mkmapview"},
	{"uinavigation", "uinavigationcontroller"},
	{"uinavigationbar", "uinavigationbar"},
	{"uinavigationcontroller", "uinavigationcontroller"},
	{"uipickerview", "uipickerview"},
	{"uiscrollview", "uiscrollview"},
	{"uisearchbar", "uisearchbar"},
	{"uitabbarcontroller", "uitabbarcontroller"},
	{"uitable", "uitableview"},
	{"uitableview", "uitableview"},
	{"uitableview section", "uitableview"},
	{"uitableviewcell", "uitableview"},
	{"uitableviewcellaccessory", "uitableview"},
	{"uitableviewcelll", "uitableview"},
	{"uitableviewcellstylevalue", "uitableview"},
	{"uitableviewcontroller", "uitableview"},
	{"uitableviewdatasource", "uitableview"},
	{"uitableviewdelegate", "uitableview"},
	{"uitableviewfooter", "uitableview"},
	{"uitableviewheader", "uitableview"},
	{"uitableviewstyle", "uitableview"},
	{"uitableviewstylegrouped", "uitableview"},
	{"uitextfield", "uitextfield"},
	{"uitextview", "uitextview"},
	{"uiview", "uiview"},
	{"uiviewcontroller", "uiviewcontroller"},
	{"uiwebview", "uiwebview"},
	{"ul", "html-lists"},
	{"umbraco", "umbraco"},
	{"uml", "uml"},
	{"uml modeling", "uml"},
	{"uml modelling", "uml"},
	{"uncaught typeerror", "typeerror"},
	{"uncompress", "compression"},
	{"undefined", "undefined"},
	{"underscore", "underscore.js"},
	{"underscore.js", "underscore.js"},
	{"unescape", "escaping"},
	{"unicode", "unicode"},
	{"uninitialized", "initialization"},
	{"union", "union"},
	{"unique", "unique"},
	{"uniqueness", "unique"},
	{"unit test", "unit-testing"},
	{"unit testing", "unit-testing"},
	{"unit tests", "unit-testing"},
	{"unittest", "unit-testing"},
	{"unity", "unity3d"},
	{"unity container", "unity-container"},
	{"unity game engine", "unity3d"},
	{"unity2d", "unity3d"},
	{"unity3d", "unity3d"},
	{"unity3d 5", "unity3d"},
	{"unity5", "unity3d"},
	{"unity5.3", "unity3d"},
	{"unix", "unix"},
	{"unix programming", "unix"},
	{"unix utils", "unix"},
	{"unordered list", "html-lists"},
	{"unpickling", "pickle"},
	{"unserialize", "serialization"},
	{"updatepanel", "updatepanel"},
	{"updates", "updates"},
	{"upgrade", "upgrade"},
	{"upload", "upload"},
	{"upload file", "file-upload"},
	{"uploads", "upload"},
	{"uri", "uri"},
	{"url", "url"},
	{"url redirection", "redirect"},
	{"url rewriting", "url-rewriting"},
	{"url routing", "url-routing"},
	{"urllib", "urllib"},
	{"urlrewrite", "url-rewriting"},
	{"urlrewriter", "url-rewriting"},
	{"urls", "url"},
	{"us ascii", "ascii"},
	{"usb", "usb"},
	{"usbdevice", "usb"},
	{"user authentication", "authentication"},
	{"user control", "user-controls"},
	{"user controls", "user-controls"},
	{"user defined functions", "user-defined-functions"},
	{"user input", "user-input"},
	{"user interface", "user-interface"},
	{"user settings", "settings"},
	{"usersettings", "settings"},
	{"utf 8", "utf-8"},
	{"utf8 decode", "utf-8"},
	{"uwp", "uwp"},
	{"vaadin", "vaadin"},
	{"vagrant", "vagrant"},
	{"valgrind", "valgrind"},
	{"valid xhtml", "xhtml"},
	{"validate", "validation"},
	{"validating", "validation"},
	{"validation", "validation"},
	{"validations", "validation"},
	{"validator", "validation"},
	{"validators", "validation"},
	{"vanilla javascript", "javascript"},
	{"vanilla js", "javascript"},
	{"vanillajs", "javascript"},
	{"variable", "variables"},
	{"variable assignment", "variable-assignment"},
	{"variable naming", "naming-conventions"},
	{"variable scope", "scope"},
	{"variables", "variables"},
	{"variadic templates", "variadic-templates"},
	{"vars", "variables"},
	{"vb", "vb.net"},
	{"vb classic", "vb6"},
	{"vb.net", "vb.net"},
	{"vb6", "vb6"},
	{"vba", "vba"},
	{"vba macros", "vba"},
	{"vbhtml", "razor"},
	{"vbproj", "vb.net"},
	{"vbs", "vbscript"},
	{"vbscript", "vbscript"},
	{"vc", "visual-c++"},
	{"vc++", "visual-c++"},
	{"vcs", "version-control"},
	{"vector", "vector"},
	{"vectorization", "vectorization"},
	{"vectorize", "vectorization"},
	{"vectorizing", "vectorization"},
	{"vectors", "vector"},
	{"verilog", "verilog"},
	{"version", "version"},
	{"version control", "version-control"},
	{"versions", "version"},
	{"vhdl", "vhdl"},
	{"video", "video"},
	{"video streaming", "video-streaming"},
	{"videos", "video"},
	{"view", "view"},
	{"viewmodel", "viewmodel"},
	{"viewpager", "android-viewpager"},
	{"views", "view"},
	{"vim", "vim"},
	{"viml", "vim"},
	{"vimrc", "vim"},
	{"vimscript", "vim"},
	{"virtual machine", "virtual-machine"},
	{"virtualbox", "virtualbox"},
	{"virtualenv", "virtualenv"},
	{"visual basic applications", "vba"},
	{"visual c++", "visual-c++"},
	{"visual studio", "visual-studio"},
	{"visual studio 11", "visual-studio-2012"},
	{"visual studio 2005", "visual-studio-2005"},
	{"visual studio 2008", "visual-studio-2008"},
	{"visual studio 2010", "visual-studio-2010"},
	{"visual studio 2010 beta 1", "visual-studio-2010"},
	{"visual studio 2010 beta 2", "visual-studio-2010"},
	{"visual studio 2010 rc", "visual-studio-2010"},
	{"visual studio 2010 rtm", "visual-studio-2010"},
	{"visual studio 2010 sp1", "visual-studio-2010"},
	{"visual studio 2012", "visual-studio-2012"},
	{"visual studio 2013", "visual-studio-2013"},
	{"visual studio 2015", "visual-studio-2015"},
	{"visual studio 2015 ce", "visual-studio-2015"},
	{"visual studio 2015 comm", "visual-studio-2015"},
	{"visual studio 2017", "visual-studio-2017"},
	{"visual studio 2019", "visual-studio-2019"},
	{"visual studio code", "visual-studio-code"},
	{"visual studio community", "visual-studio"},
	{"visual studio online", "azure-devops"},
	{"visual studio team services", "azure-devops"},
	{"visualisation", "visualization"},
	{"visualization", "visualization"},
	{"vlookup", "vlookup"},
	{"vm", "virtual-machine"},
	{"volley", "android-volley"},
	{"vs 2013", "visual-studio-2013"},
	{"vs 2013 preview", "visual-studio-2013"},
	{"vs 2013 update 2", "visual-studio-2013"},
	{"vs 2015 preview", "visual-studio-2015"},
	{"vs team services", "azure-devops"},
	{"vs.net", "visual-studio"},
	{"vs11", "visual-studio-2012"},
	{"vs2005", "visual-studio-2005"},
	{"vs2008", "visual-studio-2008"},
	{"vs2010", "visual-studio-2010"},
	{"vs2010 express", "visual-studio-2010"},
	{"vs2011", "visual-studio-2012"},
	{"vs2012", "visual-studio-2012"},
	{"vs2013", "visual-studio-2013"},
	{"vs2013 update 4", "visual-studio-2013"},
	{"vs2015", "visual-studio-2015"},
	{"vs2017", "visual-studio-2017"},
	{"vscode", "visual-studio-code"},
	{"vsnprintf", "printf"},
	{"vso", "azure-devops"},
	{"vso build", "azure-pipelines"},
	{"vsprintf", "printf"},
	{"vsto", "vsto"},
	{"vsts", "azure-devops"},
	{"vsts build", "azure-pipelines"},
	{"vswprintf", "printf"},
	{"vue", "vue.js"},
	{"vue component", "vue-component"},
	{"vue js", "vue.js"},
	{"vue router", "vue-router"},
	{"vue.js", "vue.js"},
	{"vue2", "vuejs2"},
	{"vuejs", "vue.js"},
	{"vuejs2", "vuejs2"},
	{"vuetify", "vuetify.js"},
	{"vuetify.js", "vuetify.js"},
	{"vuex", "vuex"},
	{"vulnerabilities", "security"},
	{"vulnerability", "security"},
	{"wait", "wait"},
	{"wamp", "wamp"},
	{"war", "war"},
	{"war files", "war"},
	{"warning", "warnings"},
	{"warnings", "warnings"},
	{"watchkit", "watchkit"},
	{"wcf", "wcf"},
	{"wcf performance", "performance"},
	{"wcf service", "wcf"},
	{"web", "web"},
	{"web application", "web-applications"},
	{"web applications", "web-applications"},
	{"web browser", "browser"},
	{"web client", "webclient"},
	{"web config", "web-config"},
	{"web crawler", "web-crawler"},
	{"web deployment", "web-deployment"},
	{"web performance test", "performance-testing"},
	{"web scraping", "web-scraping"},
	{"web security", "security"},
	{"web service", "web-services"},
	{"web services", "web-services"},
	{"web spider", "web-crawler"},
	{"web.config", "web-config"},
	{"webapp", "web-applications"},
	{"webapps", "web-applications"},
	{"webbrowser control", "webbrowser-control"},
	{"webclient", "webclient"},
	{"webcrawling", "web-crawler"},
	{"webdriver", "webdriver"},
	{"webdriverjs", "selenium-webdriver"},
	{"webform", "webforms"},
	{"webforms", "webforms"},
	{"webgl", "webgl"},
	{"webkit", "webkit"},
	{"weblogic", "weblogic"},
	{"webpack", "webpack"},
	{"webpage", "html"},
	{"webpagescraping", "web-scraping"},
	{"webrtc", "webrtc"},
	{"webserver", "webserver"},
	{"webservlet", "servlets"},
	{"website", "web"},
	{"websites", "web"},
	{"websocket", "websocket"},
	{"websockets", "websocket"},
	{"websphere", "websphere"},
	{"websphere mq", "ibm-mq"},
	{"webspiders", "web-crawler"},
	{"webstorm", "webstorm"},
	{"webview", "webview"},
	{"wget", "wget"},
	{"where", "where-clause"},
	{"where clause", "where-clause"},
	{"while", "while-loop"},
	{"while loop", "while-loop"},
	{"while loops", "while-loop"},
	{"whitespace", "whitespace"},
	{"wicket", "wicket"},
	{"widget", "widget"},
	{"widgets", "widget"},
	{"width", "width"},
	{"wifi", "wifi"},
	{"wifi configuration", "wifi"},
	{"wildcard", "wildcard"},
	{"wildcards", "wildcard"},
	{"wildfly", "wildfly"},
	{"win universal app", "win-universal-app"},
	{"win32", "winapi"},
	{"win32api", "winapi"},
	{"win7", "windows-7"},
	{"winapi", "winapi"},
	{"winbatch", "batch-file"},
	{"window", "window"},
	{"window api", "winapi"},
	{"window form", "winforms"},
	{"window forms", "winforms"},
	{"windows", "windows"},
	{"windows 10", "windows-10"},
	{"windows 7", "windows-7"},
	{"windows 7 api", "windows-7"},
	{"windows 8", "windows-8"},
	{"windows 8 preview", "windows-8"},
	{"windows 8.1", "windows-8.1"},
	{"windows api", "winapi"},
	{"windows application", "windows"},
	{"windows applications", "windows"},
	{"windows azure", "azure"},
	{"windows azure blob", "azure-storage-blobs"},
	{"windows azure storage", "azure-storage"},
	{"windows batch", "batch-file"},
	{"windows form", "winforms"},
	{"windows forms", "winforms"},
	{"windows installer", "windows-installer"},
	{"windows mobile", "windows-mobile"},
	{"windows phone", "windows-phone"},
	{"windows phone 7", "windows-phone-7"},
	{"windows phone 7.5", "windows-phone-7"},
	{"windows phone 8", "windows-phone-8"},
	{"windows phone 8.1", "windows-phone-8.1"},
	{"windows powershell", "powershell"},
	{"windows programming", "windows"},
	{"windows registry", "registry"},
	{"windows runtime", "windows-runtime"},
	{"windows sdk", "winapi"},
	{"windows service", "windows-services"},
	{"windows services", "windows-services"},
	{"windows store apps", "windows-store-apps"},
	{"windows universal", "win-universal-app"},
	{"windows xp", "windows-xp"},
	{"windows.forms", "winforms"},
	{"winform", "winforms"},
	{"winforms", "winforms"},
	{"winmo", "windows-mobile"},
	{"winrt", "windows-runtime"},
	{"winrt xaml", "winrt-xaml"},
	{"winservice", "windows-services"},
	{"winword", "ms-word"},
	{"winxp", "windows-xp"},
	{"wix", "wix"},
	{"wmi", "wmi"},
	{"wolfram", "wolfram-mathematica"},
	{"wolfram mathematica", "wolfram-mathematica"},
	{"woocommerce", "woocommerce"},
	{"word vba", "word-vba"},
	{"wordpress", "wordpress"},
	{"wordpress filter", "wordpress"},
	{"wordpress loop", "wordpress"},
	{"wordpress mu", "wordpress"},
	{"wordpress permission", "wordpress"},
	{"wordpress plugin", "wordpress"},
	{"wordpress plugin dev", "wordpress"},
	{"wordpress theme customize", "wordpress"},
	{"wordpress themes", "wordpress-theming"},
	{"wordpress theming", "wordpress-theming"},
	{"wordpress widget", "wordpress"},
	{"workbook", "excel"},
	{"workflow", "workflow"},
	{"worklight", "ibm-mobilefirst"},
	{"wp query", "wordpress"},
	{"wp7", "windows-phone-7"},
	{"wp8", "windows-phone-8"},
	{"wpdb", "wordpress"},
	{"wpf", "wpf"},
	{"wpf binding", "data-binding"},
	{"wpf controls", "wpf-controls"},
	{"wpfdatagrid", "datagrid"},
	{"wrapper", "wrapper"},
	{"wrappers", "wrapper"},
	{"wri mathematica", "wolfram-mathematica"},
	{"wsdl", "wsdl"},
	{"wso2", "wso2"},
	{"wso2esb", "wso2esb"},
	{"www", "web"},
	{"wx", "wxwidgets"},
	{"wxpython", "wxpython"},
	{"wxwidgets", "wxwidgets"},
	{"x64", "64-bit"},
	{"x86", "x86"},
	{"x86 64", "x86-64"},
	{"xamarin", "xamarin"},
	{"xamarin forms", "xamarin.forms"},
	{"xamarin.android", "xamarin.android"},
	{"xamarin.forms", "xamarin.forms"},
	{"xamarin.ios", "xamarin.ios"},
	{"xaml", "xaml"},
	{"xammp", "xampp"},
	{"xampp", "xampp"},
	{"xcode", "xcode"},
	{"xcode ide", "xcode"},
	{"xcode4", "xcode4"},
	{"xcode5", "xcode5"},
	{"xcode6", "xcode6"},
	{"xcode6 beta3", "xcode6"},
	{"xcode6 beta4", "xcode6"},
	{"xcode7", "xcode7"},
	{"xcode8", "xcode8"},
	{"xcode8.1", "xcode8"},
	{"xcode8.3", "xcode8"},
	{"xcode8.3.2", "xcode8"},
	{"xcode8.3.3", "xcode8"},
	{"xdocument", "linq-to-xml"},
	{"xhr", "xmlhttprequest"},
	{"xhtml", "xhtml"},
	{"xhtml5", "xhtml"},
	{"xlinq", "linq-to-xml"},
	{"xml", "xml"},
	{"xml file", "xml"},
	{"xml parser", "xml-parsing"},
	{"xml parsing", "xml-parsing"},
	{"xml schema", "xsd"},
	{"xml serialization", "xml-serialization"},
	{"xml transform", "xslt"},
	{"xmlhttp", "xmlhttprequest"},
	{"xmlhttprequest", "xmlhttprequest"},
	{"xmpp", "xmpp"},
	{"xna", "xna"},
	{"xp", "windows-xp"},
	{"xpages", "xpages"},
	{"xpath", "xpath"},
	{"xpath expression", "xpath"},
	{"xquery", "xquery"},
	{"xsd", "xsd"},
	{"xsl", "xslt"},
	{"xslt", "xslt"},
	{"xslt 1.0", "xslt-1.0"},
	{"xslt 2.0", "xslt-2.0"},
	{"xslt 2.0 processors", "xslt"},
	{"xsltproc", "xslt"},
	{"xsltprocessor", "xslt"},
	{"xsltransform", "xslt"},
	{"xsrf", "csrf"},
	{"xss", "xss"},
	{"xss prevention", "xss"},
	{"xubuntu", "ubuntu"},
	{"yaml", "yaml"},
	{"yarn", "yarn"},
	{"yii", "yii"},
	{"yii db", "yii"},
	{"yii framework", "yii"},
	{"yii mvc", "yii"},
	{"yii2", "yii2"},
	{"yml", "yaml"},
	{"youtube", "youtube"},
	{"youtube api", "youtube-api"},
	{"youtube api v3", "youtube-data-api"},
	{"youtube data api", "youtube-data-api"},
	{"youtube data api v3", "youtube-data-api"},
	{"youtube v3 api", "youtube-data-api"},
	{"z index", "z-index"},
	{"zend", "zend-framework"},
	{"zend framework", "zend-framework"},
	{"zend framework2", "zend-framework2"},
	{"zf", "zend-framework"},
	{"zf2", "zend-framework2"},
	{"zip", "zip"},
	{"zookeeper", "apache-zookeeper"},
	{"zoom", "zoom"},
	{"zooming", "zoom"},
	{"zsh", "zsh"},
	{"zurb foundation", "zurb-foundation"},
}

var dictPlayers = []dictEntry{
	{"Aaron Gordon", "Aaron Gordon"},
	{"Aaron Holiday", "Aaron Holiday"},
	{"Abdel Nader", "Abdel Nader"},
	{"Adam Mokoka", "Adam Mokoka"},
	{"Admiral Schofield", "Admiral Schofield"},
	{"Al Horford", "Al Horford"},
	{"Alec Burks", "Alec Burks"},
	{"Alen Smailagic", "Alen Smailagić"},
	{"Alen Smailagić", "Alen Smailagić"},
	{"Alex Caruso", "Alex Caruso"},
	{"Alex Len", "Alex Len"},
	{"Alfonzo McKinnie", "Alfonzo McKinnie"},
	{"Alize Johnson", "Alize Johnson"},
	{"Allonzo Trier", "Allonzo Trier"},
	{"Amir Coffey", "Amir Coffey"},
	{"Andre Drummond", "Andre Drummond"},
	{"Andre Iguodala", "Andre Iguodala"},
	{"Andre Roberson", "André Roberson"},
	{"Andrew Wiggins", "Andrew Wiggins"},
	{"André Roberson", "André Roberson"},
	{"Anfernee Simons", "Anfernee Simons"},
	{"Ante Zizic", "Ante Žižić"},
	{"Ante Žižić", "Ante Žižić"},
	{"Anthony Davis", "Anthony Davis"},
	{"Anthony Tolliver", "Anthony Tolliver"},
	{"Antonius Cleveland", "Antonius Cleveland"},
	{"Anzejs Pasecniks", "Anžejs Pasečņiks"},
	{"Anžejs Pasečņiks", "Anžejs Pasečņiks"},
	{"Aron Baynes", "Aron Baynes"},
	{"Austin Rivers", "Austin Rivers"},
	{"Avery Bradley", "Avery Bradley"},
	{"Bam Adebayo", "Bam Adebayo"},
	{"Ben McLemore", "Ben McLemore"},
	{"Ben Simmons", "Ben Simmons"},
	{"Bismack Biyombo", "Bismack Biyombo"},
	{"Blake Griffin", "Blake Griffin"},
	{"Boban Marjanovic", "Boban Marjanović"},
	{"Boban Marjanović", "Boban Marjanović"},
	{"Bobby Portis", "Bobby Portis"},
	{"Bogdan Bogdanovic", "Bogdan Bogdanović"},
	{"Bogdan Bogdanović", "Bogdan Bogdanović"},
	{"Bojan Bogdanovic", "Bojan Bogdanović"},
	{"Bojan Bogdanović", "Bojan Bogdanović"},
	{"Bol Bol", "Bol Bol"},
	{"Brad Wanamaker", "Brad Wanamaker"},
	{"Bradley Beal", "Bradley Beal"},
	{"Brandon Clarke", "Brandon Clarke"},
	{"Brandon Goodwin", "Brandon Goodwin"},
	{"Brandon Ingram", "Brandon Ingram"},
	{"Brandon Knight", "Brandon Knight"},
	{"Brian Bowen", "Brian Bowen"},
	{"Brook Lopez", "Brook Lopez"},
	{"Bruce Brown", "Bruce Brown"},
	{"Bruno Caboclo", "Bruno Caboclo"},
	{"Bruno Fernando", "Bruno Fernando"},
	{"Bryn Forbes", "Bryn Forbes"},
	{"Buddy Hield", "Buddy Hield"},
	{"CJ McCollum", "CJ McCollum"},
	{"Caleb Martin", "Caleb Martin"},
	{"Caleb Swanigan", "Caleb Swanigan"},
	{"Cam Reddish", "Cam Reddish"},
	{"Cameron Johnson", "Cameron Johnson"},
	{"Cameron Reynolds", "Cameron Reynolds"},
	{"Caris LeVert", "Caris LeVert"},
	{"Carmelo Anthony", "Carmelo Anthony"},
	{"Carsen Edwards", "Carsen Edwards"},
	{"Cedi Osman", "Cedi Osman"},
	{"Chandler Hutchison", "Chandler Hutchison"},
	{"Charlie Brown", "Charlie Brown"},
	{"Chasson Randle", "Chasson Randle"},
	{"Cheick Diallo", "Cheick Diallo"},
	{"Chimezie Metu", "Chimezie Metu"},
	{"Chris Boucher", "Chris Boucher"},
	{"Chris Chiozza", "Chris Chiozza"},
	{"Chris Clemons", "Chris Clemons"},
	{"Chris Paul", "Chris Paul"},
	{"Chris Silva", "Chris Silva"},
	{"Christian Wood", "Christian Wood"},
	{"Clint Capela", "Clint Capela"},
	{"Coby White", "Coby White"},
	{"Cody Martin", "Cody Martin"},
	{"Cody Zeller", "Cody Zeller"},
	{"Collin Sexton", "Collin Sexton"},
	{"Cory Joseph", "Cory Joseph"},
	{"Courtney Lee", "Courtney Lee"},
	{"Cristiano Felicio", "Cristiano Felício"},
	{"Cristiano Felício", "Cristiano Felício"},
	{"D'Angelo Russell", "D'Angelo Russell"},
	{"DaQuan Jeffries", "DaQuan Jeffries"},
	{"Damian Jones", "Damian Jones"},
	{"Damian Lillard", "Damian Lillard"},
	{"Damion Lee", "Damion Lee"},
	{"Damyean Dotson", "Damyean Dotson"},
	{"Daniel Gafford", "Daniel Gafford"},
	{"Daniel Theis", "Daniel Theis"},
	{"Danilo Gallinari", "Danilo Gallinari"},
	{"Danny Green", "Danny Green"},
	{"Dante Exum", "Dante Exum"},
	{"Danuel House", "Danuel House"},
	{"Dario Saric", "Dario Šarić"},
	{"Dario Šarić", "Dario Šarić"},
	{"Darius Bazley", "Darius Bazley"},
	{"Darius Garland", "Darius Garland"},
	{"Darius Miller", "Darius Miller"},
	{"Davis Bertans", "Dāvis Bertāns"},
	{"De'Aaron Fox", "De'Aaron Fox"},
	{"De'Andre Hunter", "De'Andre Hunter"},
	{"De'Anthony Melton", "De'Anthony Melton"},
	{"DeAndre Jordan", "DeAndre Jordan"},
	{"DeMar DeRozan", "DeMar DeRozan"},
	{"DeMarre Carroll", "DeMarre Carroll"},
	{"Dean Wade", "Dean Wade"},
	{"Deandre Ayton", "Deandre Ayton"},
	{"Dejounte Murray", "Dejounte Murray"},
	{"Delon Wright", "Delon Wright"},
	{"Dennis Schroder", "Dennis Schröder"},
	{"Dennis Schröder", "Dennis Schröder"},
	{"Dennis Smith", "Dennis Smith"},
	{"Denzel Valentine", "Denzel Valentine"},
	{"Deonte Burton", "Deonte Burton"},
	{"Derrick Favors", "Derrick Favors"},
	{"Derrick Jones", "Derrick Jones"},
	{"Derrick Rose", "Derrick Rose"},
	{"Derrick White", "Derrick White"},
	{"Devin Booker", "Devin Booker"},
	{"Devontae Cacok", "Devontae Cacok"},
	{"Dewan Hernandez", "Dewan Hernandez"},
	{"Dewayne Dedmon", "Dewayne Dedmon"},
	{"Dillon Brooks", "Dillon Brooks"},
	{"Dion Waiters", "Dion Waiters"},
	{"Domantas Sabonis", "Domantas Sabonis"},
	{"Donovan Mitchell", "Donovan Mitchell"},
	{"Donta Hall", "Donta Hall"},
	{"Donte DiVincenzo", "Donte DiVincenzo"},
	{"Doug McDermott", "Doug McDermott"},
	{"Dragan Bender", "Dragan Bender"},
	{"Draymond Green", "Draymond Green"},
	{"Drew Eubanks", "Drew Eubanks"},
	{"Duncan Robinson", "Duncan Robinson"},
	{"Dwayne Bacon", "Dwayne Bacon"},
	{"Dwight Howard", "Dwight Howard"},
	{"Dwight Powell", "Dwight Powell"},
	{"Dylan Windler", "Dylan Windler"},
	{"Dzanan Musa", "Džanan Musa"},
	{"Dāvis Bertāns", "Dāvis Bertāns"},
	{"Džanan Musa", "Džanan Musa"},
	{"E'Twaun Moore", "E'Twaun Moore"},
	{"Ed Davis", "Ed Davis"},
	{"Edmond Sumner", "Edmond Sumner"},
	{"Elfrid Payton", "Elfrid Payton"},
	{"Elie Okobo", "Élie Okobo"},
	{"Emmanuel Mudiay", "Emmanuel Mudiay"},
	{"Enes Kanter", "Enes Kanter"},
	{"Eric Bledsoe", "Eric Bledsoe"},
	{"Eric Gordon", "Eric Gordon"},
	{"Eric Mika", "Eric Mika"},
	{"Eric Paschall", "Eric Paschall"},
	{"Ersan Ilyasova", "Ersan İlyasova"},
	{"Ersan İlyasova", "Ersan İlyasova"},
	{"Evan Fournier", "Evan Fournier"},
	{"Evan Turner", "Evan Turner"},
	{"Frank Jackson", "Frank Jackson"},
	{"Frank Kaminsky", "Frank Kaminsky"},
	{"Frank Mason", "Frank Mason"},
	{"Frank Ntilikina", "Frank Ntilikina"},
	{"Fred VanVleet", "Fred VanVleet"},
	{"Furkan Korkmaz", "Furkan Korkmaz"},
	{"Gabe Vincent", "Gabe Vincent"},
	{"Garrett Temple", "Garrett Temple"},
	{"Garrison Mathews", "Garrison Mathews"},
	{"Gary Clark", "Gary Clark"},
	{"Gary Harris", "Gary Harris"},
	{"Gary Payton", "Gary Payton"},
	{"Gary Trent", "Gary Trent"},
	{"George Hill", "George Hill"},
	{"Georges Niang", "Georges Niang"},
	{"Giannis Antetokounmpo", "Giannis Antetokounmpo"},
	{"Glenn Robinson", "Glenn Robinson"},
	{"Goga Bitadze", "Goga Bitadze"},
	{"Goran Dragic", "Goran Dragić"},
	{"Goran Dragić", "Goran Dragić"},
	{"Gordon Hayward", "Gordon Hayward"},
	{"Gorgui Dieng", "Gorgui Dieng"},
	{"Grant Williams", "Grant Williams"},
	{"Grayson Allen", "Grayson Allen"},
	{"Hamidou Diallo", "Hamidou Diallo"},
	{"Harrison Barnes", "Harrison Barnes"},
	{"Harry Giles", "Harry Giles"},
	{"Hassan Whiteside", "Hassan Whiteside"},
	{"Ian Mahinmi", "Ian Mahinmi"},
	{"Ignas Brazdeikis", "Ignas Brazdeikis"},
	{"Isaac Bonga", "Isaac Bonga"},
	{"Isaiah Hartenstein", "Isaiah Hartenstein"},
	{"Isaiah Roby", "Isaiah Roby"},
	{"Ish Smith", "Ish Smith"},
	{"Ivica Zubac", "Ivica Zubac"},
	{"JJ Redick", "JJ Redick"},
	{"Ja Morant", "Ja Morant"},
	{"JaKarr Sampson", "JaKarr Sampson"},
	{"JaMychal Green", "JaMychal Green"},
	{"JaVale McGee", "JaVale McGee"},
	{"Jabari Parker", "Jabari Parker"},
	{"Jacob Evans", "Jacob Evans"},
	{"Jae Crowder", "Jae Crowder"},
	{"Jahlil Okafor", "Jahlil Okafor"},
	{"Jake Layman", "Jake Layman"},
	{"Jakob Poltl", "Jakob Pöltl"},
	{"Jakob Pöltl", "Jakob Pöltl"},
	{"Jalen Brunson", "Jalen Brunson"},
	{"Jalen Lecque", "Jalen Lecque"},
	{"Jalen McDaniels", "Jalen McDaniels"},
	{"Jamal Murray", "Jamal Murray"},
	{"James Ennis", "James Ennis"},
	{"James Harden", "James Harden"},
	{"James Johnson", "James Johnson"},
	{"Jared Dudley", "Jared Dudley"},
	{"Jaren Jackson", "Jaren Jackson"},
	{"Jarred Vanderbilt", "Jarred Vanderbilt"},
	{"Jarrell Brantley", "Jarrell Brantley"},
	{"Jarrett Allen", "Jarrett Allen"},
	{"Jarrett Culver", "Jarrett Culver"},
	{"Javonte Green", "Javonte Green"},
	{"Jaxson Hayes", "Jaxson Hayes"},
	{"Jaylen Brown", "Jaylen Brown"},
	{"Jaylen Hoard", "Jaylen Hoard"},
	{"Jaylen Nowell", "Jaylen Nowell"},
	{"Jayson Tatum", "Jayson Tatum"},
	{"Jeff Green", "Jeff Green"},
	{"Jeff Teague", "Jeff Teague"},
	{"Jerami Grant", "Jerami Grant"},
	{"Jeremiah Martin", "Jeremiah Martin"},
	{"Jeremy Lamb", "Jeremy Lamb"},
	{"Jerome Robinson", "Jerome Robinson"},
	{"Jevon Carter", "Jevon Carter"},
	{"Jimmy Butler", "Jimmy Butler"},
	{"Joakim Noah", "Joakim Noah"},
	{"Joe Chealey", "Joe Chealey"},
	{"Joe Harris", "Joe Harris"},
	{"Joe Ingles", "Joe Ingles"},
	{"Joel Embiid", "Joel Embiid"},
	{"John Collins", "John Collins"},
	{"John Henson", "John Henson"},
	{"John Konchar", "John Konchar"},
	{"John Wall", "John Wall"},
	{"Johnathan Motley", "Johnathan Motley"},
	{"Johnathan Williams", "Johnathan Williams"},
	{"Jonas Valanciunas", "Jonas Valančiūnas"},
	{"Jonas Valančiūnas", "Jonas Valančiūnas"},
	{"Jonathan Isaac", "Jonathan Isaac"},
	{"Jontay Porter", "Jontay Porter"},
	{"Jordan Bone", "Jordan Bone"},
	{"Jordan Clarkson", "Jordan Clarkson"},
	{"Jordan McLaughlin", "Jordan McLaughlin"},
	{"Jordan McRae", "Jordan McRae"},
	{"Jordan Poole", "Jordan Poole"},
	{"Josh Gray", "Josh Gray"},
	{"Josh Hart", "Josh Hart"},
	{"Josh Jackson", "Josh Jackson"},
	{"Josh Okogie", "Josh Okogie"},
	{"Josh Reaves", "Josh Reaves"},
	{"Josh Richardson", "Josh Richardson"},
	{"Jrue Holiday", "Jrue Holiday"},
	{"Juan Hernangomez", "Juan Hernangómez"},
	{"Juan Hernangómez", "Juan Hernangómez"},
	{"Julius Randle", "Julius Randle"},
	{"Justin Holiday", "Justin Holiday"},
	{"Justin Jackson", "Justin Jackson"},
	{"Justin James", "Justin James"},
	{"Justise Winslow", "Justise Winslow"},
	{"Jusuf Nurkic", "Jusuf Nurkić"},
	{"Jusuf Nurkić", "Jusuf Nurkić"},
	{"Juwan Morgan", "Juwan Morgan"},
	{"KZ Okpala", "KZ Okpala"},
	{"Kadeem Allen", "Kadeem Allen"},
	{"Kawhi Leonard", "Kawhi Leonard"},
	{"Kelan Martin", "Kelan Martin"},
	{"Keldon Johnson", "Keldon Johnson"},
	{"Kelly Olynyk", "Kelly Olynyk"},
	{"Kelly Oubre", "Kelly Oubre"},
	{"Kemba Walker", "Kemba Walker"},
	{"Kendrick Nunn", "Kendrick Nunn"},
	{"Kenny Wooten", "Kenny Wooten"},
	{"Kenrich Williams", "Kenrich Williams"},
	{"Kent Bazemore", "Kent Bazemore"},
	{"Kevin Durant", "Kevin Durant"},
	{"Kevin Hervey", "Kevin Hervey"},
	{"Kevin Huerter", "Kevin Huerter"},
	{"Kevin Knox", "Kevin Knox"},
	{"Kevin Love", "Kevin Love"},
	{"Kevin Porter", "Kevin Porter"},
	{"Kevon Looney", "Kevon Looney"},
	{"Khem Birch", "Khem Birch"},
	{"Khris Middleton", "Khris Middleton"},
	{"Khyri Thomas", "Khyri Thomas"},
	{"Klay Thompson", "Klay Thompson"},
	{"Kobi Simmons", "Kobi Simmons"},
	{"Kostas Antetokounmpo", "Kostas Antetokounmpo"},
	{"Kris Dunn", "Kris Dunn"},
	{"Kristaps Porzingis", "Kristaps Porziņģis"},
	{"Kristaps Porziņģis", "Kristaps Porziņģis"},
	{"Ky Bowman", "Ky Bowman"},
	{"Kyle Alexander", "Kyle Alexander"},
	{"Kyle Anderson", "Kyle Anderson"},
	{"Kyle Guy", "Kyle Guy"},
	{"Kyle Korver", "Kyle Korver"},
	{"Kyle Kuzma", "Kyle Kuzma"},
	{"Kyle Lowry", "Kyle Lowry"},
	{"Kyle O'Quinn", "Kyle O'Quinn"},
	{"Kyrie Irving", "Kyrie Irving"},
	{"LaMarcus Aldridge", "LaMarcus Aldridge"},
	{"Landry Shamet", "Landry Shamet"},
	{"Langston Galloway", "Langston Galloway"},
	{"Larry Nance", "Larry Nance"},
	{"Lauri Markkanen", "Lauri Markkanen"},
	{"LeBron James", "LeBron James"},
	{"Lonnie Walker", "Lonnie Walker"},
	{"Lonzo Ball", "Lonzo Ball"},
	{"Lou Williams", "Lou Williams"},
	{"Louis King", "Louis King"},
	{"Luguentz Dort", "Luguentz Dort"},
	{"Luka Doncic", "Luka Dončić"},
	{"Luka Dončić", "Luka Dončić"},
	{"Luka Samanic", "Luka Šamanić"},
	{"Luka Šamanić", "Luka Šamanić"},
	{"Luke Kennard", "Luke Kennard"},
	{"Luke Kornet", "Luke Kornet"},
	{"Malcolm Brogdon", "Malcolm Brogdon"},
	{"Malcolm Miller", "Malcolm Miller"},
	{"Malik Beasley", "Malik Beasley"},
	{"Malik Monk", "Malik Monk"},
	{"Marc Gasol", "Marc Gasol"},
	{"Marco Belinelli", "Marco Belinelli"},
	{"Marcus Morris", "Marcus Morris"},
	{"Marcus Smart", "Marcus Smart"},
	{"Marial Shayok", "Marial Shayok"},
	{"Mario Hezonja", "Mario Hezonja"},
	{"Markelle Fultz", "Markelle Fultz"},
	{"Markieff Morris", "Markieff Morris"},
	{"Marko Guduric", "Marko Gudurić"},
	{"Marko Gudurić", "Marko Gudurić"},
	{"Marquese Chriss", "Marquese Chriss"},
	{"Marvin Bagley", "Marvin Bagley"},
	{"Marvin Williams", "Marvin Williams"},
	{"Mason Plumlee", "Mason Plumlee"},
	{"Matisse Thybulle", "Matisse Thybulle"},
	{"Matt Mooney", "Matt Mooney"},
	{"Matt Thomas", "Matt Thomas"},
	{"Matthew Dellavedova", "Matthew Dellavedova"},
	{"Maurice Harkless", "Maurice Harkless"},
	{"Max Strus", "Max Strus"},
	{"Maxi Kleber", "Maxi Kleber"},
	{"Melvin Frazier", "Melvin Frazier"},
	{"Meyers Leonard", "Meyers Leonard"},
	{"Mfiondu Kabengele", "Mfiondu Kabengele"},
	{"Michael Frazier", "Michael Frazier"},
	{"Michael Porter", "Michael Porter"},
	{"Mikal Bridges", "Mikal Bridges"},
	{"Mike Conley", "Mike Conley"},
	{"Mike Muscala", "Mike Muscala"},
	{"Mike Scott", "Mike Scott"},
	{"Miles Bridges", "Miles Bridges"},
	{"Mitchell Robinson", "Mitchell Robinson"},
	{"Miye Oni", "Miye Oni"},
	{"Mohamed Bamba", "Mohamed Bamba"},
	{"Monte Morris", "Monté Morris"},
	{"Montrezl Harrell", "Montrezl Harrell"},
	{"Monté Morris", "Monté Morris"},
	{"Moritz Wagner", "Moritz Wagner"},
	{"Moses Brown", "Moses Brown"},
	{"Mychal Mulder", "Mychal Mulder"},
	{"Myles Turner", "Myles Turner"},
	{"Nassir Little", "Nassir Little"},
	{"Naz Reid", "Naz Reid"},
	{"Nemanja Bjelica", "Nemanja Bjelica"},
	{"Nerlens Noel", "Nerlens Noel"},
	{"Nicolas Batum", "Nicolas Batum"},
	{"Nicolas Claxton", "Nicolas Claxton"},
	{"Nicolo Melli", "Nicolò Melli"},
	{"Nicolò Melli", "Nicolò Melli"},
	{"Nikola Jokic", "Nikola Jokić"},
	{"Nikola Jokić", "Nikola Jokić"},
	{"Nikola Vucevic", "Nikola Vučević"},
	{"Nikola Vučević", "Nikola Vučević"},
	{"Noah Vonleh", "Noah Vonleh"},
	{"Norman Powell", "Norman Powell"},
	{"Norvel Pelle", "Norvel Pelle"},
	{"OG Anunoby", "OG Anunoby"},
	{"Omari Spellman", "Omari Spellman"},
	{"Oshae Brissett", "Oshae Brissett"},
	{"Otto Porter", "Otto Porter"},
	{"Pascal Siakam", "Pascal Siakam"},
	{"Pat Connaughton", "Pat Connaughton"},
	{"Patrick Beverley", "Patrick Beverley"},
	{"Patrick McCaw", "Patrick McCaw"},
	{"Patrick Patterson", "Patrick Patterson"},
	{"Patty Mills", "Patty Mills"},
	{"Paul George", "Paul George"},
	{"Paul Millsap", "Paul Millsap"},
	{"Paul Watson", "Paul Watson"},
	{"Quinn Cook", "Quinn Cook"},
	{"Quinndary Weatherspoon", "Quinndary Weatherspoon"},
	{"RJ Barrett", "RJ Barrett"},
	{"Rajon Rondo", "Rajon Rondo"},
	{"Raul Neto", "Raul Neto"},
	{"Ray Spalding", "Ray Spalding"},
	{"Rayjon Tucker", "Rayjon Tucker"},
	{"Reggie Bullock", "Reggie Bullock"},
	{"Reggie Jackson", "Reggie Jackson"},
	{"Richaun Holmes", "Richaun Holmes"},
	{"Ricky Rubio", "Ricky Rubio"},
	{"Robert Covington", "Robert Covington"},
	{"Robert Williams", "Robert Williams"},
	{"Robin Lopez", "Robin Lopez"},
	{"Rodions Kurucs", "Rodions Kurucs"},
	{"Rodney Hood", "Rodney Hood"},
	{"Rodney McGruder", "Rodney McGruder"},
	{"Romeo Langford", "Romeo Langford"},
	{"Royce O'Neale", "Royce O'Neale"},
	{"Rudy Gay", "Rudy Gay"},
	{"Rudy Gobert", "Rudy Gobert"},
	{"Rui Hachimura", "Rui Hachimura"},
	{"Russell Westbrook", "Russell Westbrook"},
	{"Ryan Arcidiacono", "Ryan Arcidiacono"},
	{"Sekou Doumbouya", "Sekou Doumbouya"},
	{"Semi Ojeleye", "Semi Ojeleye"},
	{"Serge Ibaka", "Serge Ibaka"},
	{"Seth Curry", "Seth Curry"},
	{"Shabazz Napier", "Shabazz Napier"},
	{"Shake Milton", "Shake Milton"},
	{"Shaquille Harrison", "Shaquille Harrison"},
	{"Sheldon Mac", "Sheldon Mac"},
	{"Sir'Dominic Pointer", "Sir'Dominic Pointer"},
	{"Skal Labissiere", "Skal Labissière"},
	{"Skal Labissière", "Skal Labissière"},
	{"Solomon Hill", "Solomon Hill"},
	{"Spencer Dinwiddie", "Spencer Dinwiddie"},
	{"Stanley Johnson", "Stanley Johnson"},
	{"Stephen Curry", "Stephen Curry"},
	{"Sterling Brown", "Sterling Brown"},
	{"Steven Adams", "Steven Adams"},
	{"Sviatoslav Mykhailiuk", "Sviatoslav Mykhailiuk"},
	{"Tacko Fall", "Tacko Fall"},
	{"Taj Gibson", "Taj Gibson"},
	{"Tariq Owens", "Tariq Owens"},
	{"Taurean Prince", "Taurean Prince"},
	{"Terance Mann", "Terance Mann"},
	{"Terence Davis", "Terence Davis"},
	{"Terrance Ferguson", "Terrance Ferguson"},
	{"Terrence Ross", "Terrence Ross"},
	{"Terry Rozier", "Terry Rozier"},
	{"Thabo Sefolosha", "Thabo Sefolosha"},
	{"Thaddeus Young", "Thaddeus Young"},
	{"Thanasis Antetokounmpo", "Thanasis Antetokounmpo"},
	{"Theo Pinson", "Theo Pinson"},
	{"Thomas Bryant", "Thomas Bryant"},
	{"Thon Maker", "Thon Maker"},
	{"Tim Hardaway", "Tim Hardaway"},
	{"Tobias Harris", "Tobias Harris"},
	{"Tomas Satoransky", "Tomáš Satoranský"},
	{"Tomáš Satoranský", "Tomáš Satoranský"},
	{"Tony Bradley", "Tony Bradley"},
	{"Tony Snell", "Tony Snell"},
	{"Torrey Craig", "Torrey Craig"},
	{"Trae Young", "Trae Young"},
	{"Tremont Waters", "Tremont Waters"},
	{"Treveon Graham", "Treveon Graham"},
	{"Trevor Ariza", "Trevor Ariza"},
	{"Trey Lyles", "Trey Lyles"},
	{"Tristan Thompson", "Tristan Thompson"},
	{"Troy Brown", "Troy Brown"},
	{"Troy Daniels", "Troy Daniels"},
	{"Ty Jerome", "Ty Jerome"},
	{"Tyler Herro", "Tyler Herro"},
	{"Tyson Chandler", "Tyson Chandler"},
	{"Tyus Jones", "Tyus Jones"},
	{"Udonis Haslem", "Udonis Haslem"},
	{"Vic Law", "Vic Law"},
	{"Victor Oladipo", "Victor Oladipo"},
	{"Vince Carter", "Vince Carter"},
	{"Vincent Poirier", "Vincent Poirier"},
	{"Vlatko Cancar", "Vlatko Čančar"},
	{"Vlatko Čančar", "Vlatko Čančar"},
	{"Wayne Ellington", "Wayne Ellington"},
	{"Wendell Carter", "Wendell Carter"},
	{"Wenyen Gabriel", "Wenyen Gabriel"},
	{"Wes Iwundu", "Wes Iwundu"},
	{"Wesley Matthews", "Wesley Matthews"},
	{"Will Barton", "Will Barton"},
	{"William Howard", "William Howard"},
	{"Willy Hernangomez", "Willy Hernangómez"},
	{"Willy Hernangómez", "Willy Hernangómez"},
	{"Wilson Chandler", "Wilson Chandler"},
	{"Yogi Ferrell", "Yogi Ferrell"},
	{"Yuta Watanabe", "Yuta Watanabe"},
	{"Zach Collins", "Zach Collins"},
	{"Zach LaVine", "Zach LaVine"},
	{"Zhaire Smith", "Zhaire Smith"},
	{"Zion Williamson", "Zion Williamson"},
	{"Zylan Cheatham", "Zylan Cheatham"},
	{"Élie Okobo", "Élie Okobo"},
}
