# C18: one rule validates names, one rule derives them.
property C18
checks all

prelude <<<
(declare-fun trim_ (Str) Str)
(declare-fun lower_ (Str) Str)
(declare-fun split_at (Str Str Int) Str)
(declare-fun split_n (Str Str) Int)
(declare-fun tag_val (Str Str) Str)
(declare-fun tag_has (Str Str) Bool)
(declare-fun type_name (Int) Str)
>>>

def letter(c) = ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z')
def digit(c) = '0' <= c && c <= '9'
def namechar(s, k) = letter(s[k]) || (k > 0 && (digit(s[k]) || s[k] == '_'))
def validname(s) = len(s) > 0 && (forall k :: 0 <= k && k < len(s) ==> namechar(s, k))
def ascii(s) = forall k :: 0 <= k && k < len(s) ==> s[k] < 128
def lc(c) = ite('A' <= c && c <= 'Z', c + 32, c)
def uc(c) = ite('a' <= c && c <= 'z', c - 32, c)

extern errors.New(s) (e)
  ensures e != nil
extern fmt.Errorf(format, a) (e)
  ensures e != nil
extern (error).Error(e) (s)
extern log.Panicf(format, v)
  ensures false
extern strings.TrimSpace(s) (r)
  ensures r == trim_(s)
extern strings.ToLower(s) (r)
  ensures r == lower_(s)
  ensures ascii(s) ==> len(r) == len(s) && (forall k :: 0 <= k && k < len(s) ==> r[k] == lc(s[k]))
extern strings.Split(s, sep) (r)
  ensures len(r) == split_n(s, sep) && len(r) >= 1 && fresh(r)
  ensures forall k :: 0 <= k && k < len(r) ==> r[k] == split_at(s, sep, k)
extern bytes.ToUpper(s) (r)
  ensures fresh(r)
  ensures len(s) == 1 ==> len(r) >= 1
  ensures len(s) == 1 && s[0] < 128 ==> len(r) == 1 && r[0] == uc(s[0])
extern bytes.ToLower(s) (r)
  ensures fresh(r)
  ensures len(s) == 1 ==> len(r) >= 1
  ensures len(s) == 1 && s[0] < 128 ==> len(r) == 1 && r[0] == lc(s[0])
extern (reflect.StructTag).Lookup(tag, key) (val, ok)
  ensures ok <==> tag_has(tag, key)
  ensures val == tag_val(tag, key)
  ensures !ok ==> len(val) == 0
extern reflect.TypeOf(v) (t)
  ensures t != nil
extern (reflect.Type).Name(t) (s)
  ensures s == type_name(t)
extern (reflect.Type).PkgPath(t) (s)
extern (reflect.Type).Kind(t) (k)
extern (reflect.Kind).String(k) (s)

fn yarql.validGraphQlName(name) (err)
  ensures @accepts-exactly-valid-names err == nil <==> validname(name)
  inv forall k :: 0 <= k && k <= $i ==> namechar(name, k)
  inv forall k :: 0 <= k && k < $i ==> namechar(name, k)
  loopdec len(name) - $i

fn yarql.formatGoNameToQL(input) (r)
  ensures @one-char ascii(input) && len(input) <= 1 ==> len(r) == len(input) && (forall k :: 0 <= k && k < len(r) ==> r[k] == lc(input[k]))
  ensures @tail-kept ascii(input) && len(input) > 1 ==> len(r) == len(input) && (forall k :: 1 <= k && k < len(r) ==> r[k] == input[k])
  ensures @first-char ascii(input) && len(input) > 1 ==> r[0] == ite('a' <= input[1] && input[1] <= 'z', lc(input[0]), input[0])

def part(v, k) = trim_(split_at(v, ",", k))
def isid(v, k) = lower_(part(v, k)) == "id"

fn yarql.parseFieldTagGQ(field) (newName, ignore, isID, err)
  requires field != nil
  ensures @no-tag !tag_has(field.Tag, "gq") || len(tag_val(field.Tag, "gq")) == 0 ==> newName == nil && !ignore && !isID && err == nil
  ensures @dash len(tag_val(field.Tag, "gq")) > 0 ==> (ignore <==> part(tag_val(field.Tag, "gq"), 0) == "-")
  ensures @dash-alone ignore ==> newName == nil && err == nil && !isID
  ensures @name len(tag_val(field.Tag, "gq")) > 0 && !ignore && err == nil && len(part(tag_val(field.Tag, "gq"), 0)) > 0 ==> newName != nil && *newName == part(tag_val(field.Tag, "gq"), 0) && validname(*newName)
  ensures @no-name len(tag_val(field.Tag, "gq")) > 0 && len(part(tag_val(field.Tag, "gq"), 0)) == 0 ==> newName == nil
  ensures @id len(tag_val(field.Tag, "gq")) > 0 && !ignore && err == nil ==> (isID <==> split_n(tag_val(field.Tag, "gq"), ",") > 1)
  ensures @only-id len(tag_val(field.Tag, "gq")) > 0 && !ignore && err == nil ==> (forall k :: 1 <= k && k < split_n(tag_val(field.Tag, "gq"), ",") ==> isid(tag_val(field.Tag, "gq"), k))
  ensures @accepts len(tag_val(field.Tag, "gq")) > 0 && !ignore && (len(part(tag_val(field.Tag, "gq"), 0)) == 0 || validname(part(tag_val(field.Tag, "gq"), 0))) && (forall k :: 1 <= k && k < split_n(tag_val(field.Tag, "gq"), ",") ==> isid(tag_val(field.Tag, "gq"), k)) ==> err == nil
  inv forall k :: 1 <= k && k < $i + 1 ==> isid(tag_val(field.Tag, "gq"), k)
  inv forall k :: 1 <= k && k < $i + 2 ==> isid(tag_val(field.Tag, "gq"), k)
  inv isID <==> $i >= 1
  inv isID <==> $i >= 0
  loopdec split_n(tag_val(field.Tag, "gq"), ",") - $i

fn yarql.TypeRename(goType, newName, force) (r)
  requires renamedTypes != nil
  modifies everything()
  ensures @renamed-valid r == trim_(newName) && len(r) > 0 && ((len(force) > 0 && force[0]) || validname(r))
