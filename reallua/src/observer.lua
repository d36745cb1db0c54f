-- Runs each chunk of the stimuli in an environment whose every value is opaque, and writes down what it does to it: the events of the
-- specification (spec/LuaVM.tla), with the answers that it was given, and the contents of all tables it has shown.
--
-- A stimulus is   id|arguments|seed|chunk in hexadecimal   and an observation the JSON of   {id, err, trace: [{k, v, a, line, t, n}, ...]}.

local source, target = ...

local MOST_EVENTS = 24
local MOST_INSTRUCTIONS = 60000

local assert, error, pairs, rawequal, select, setfenv, setmetatable, tostring, type, unpack, xpcall =
    assert, error, pairs, rawequal, select, setfenv, setmetatable, tostring, type, unpack, xpcall
local newproxy, getmetatable, loadstring = newproxy, getmetatable, loadstring
local getinfo, getlocal, sethook, setmeta = debug.getinfo, debug.getlocal, debug.sethook, debug.setmetatable
local byte, char, concat, find, floor, format, gsub, insert, match, sub =
    string.byte, string.char, table.concat, string.find, math.floor, string.format, string.gsub, table.insert, string.match, string.sub
local rawnext = next

local SPENT, STOP = {}, {}
local MINE = getinfo(1, "S").source

-- Strings have no methods here, as in Lua 5.0.
setmeta("", nil)

-- The state of the run in progress.
local trace, count, random, labels, shown, numbers, names, externals, given

local function draw(n)
    random = (random * 16807) % 2147483647
    return random % n
end

local function opaque(n)
    local value = newproxy(given)
    numbers[value] = n
    return value
end

local function is_opaque(value)
    return numbers[value] ~= nil or (type(value) == "function" and names[value] ~= nil)
end

local function label(value)
    if not labels[value] then
        labels.count = labels.count + 1
        labels[value] = labels.count
        if type(value) == "table" then insert(shown, value) end
    end
    return labels[value]
end

local function bytes(tag, text)
    local parts = { tag }
    for i = 1, #text do parts[#parts + 1] = byte(text, i) end
    return "[" .. concat(parts, ",") .. "]"
end

local builtin = {}

local function encode(value)
    local kind = type(value)
    if kind == "nil" then return "[0]"
    elseif kind == "boolean" then return value and "[1,1]" or "[1,0]"
    elseif kind == "number" then
        local scaled = value * 16
        if scaled == floor(scaled) and scaled > -1000000000 and scaled < 1000000000 then return format("[3,%d]", scaled) end
        return "[97]"
    elseif kind == "string" then return bytes(4, value)
    elseif kind == "table" then return "[5," .. label(value) .. "]"
    elseif kind == "userdata" then return "[9," .. numbers[value] .. "]"
    elseif builtin[value] then return "[7," .. builtin[value] .. "]"
    elseif names[value] then return bytes(8, names[value])
    end
    return "[6," .. label(value) .. "]"
end

local function encode_list(values, n)
    local parts = {}
    for i = 1, n do parts[i] = encode(values[i]) end
    return "[" .. concat(parts, ",") .. "]"
end

-- The contents of all tables in sight; looking at one can bring more into sight.
local function tables()
    local parts, i = {}, 1
    while shown[i] do
        local entries = {}
        for key, value in rawnext, shown[i] do
            entries[#entries + 1] = "[" .. encode(key) .. "," .. encode(value) .. "]"
        end
        parts[i] = "[" .. labels[shown[i]] .. ",[" .. concat(entries, ",") .. "]]"
        i = i + 1
    end
    return "[" .. concat(parts, ",") .. "]"
end

-- The names of the local variables of the functions of the chunk that are running, the innermost last.
local function scopes()
    local parts, level = {}, 2
    while true do
        local info = getinfo(level, "S")
        if not info or info.what == "C" then break end
        if info.what ~= "tail" and info.source ~= MINE then
            local found = {}
            while true do
                local name = getlocal(level, #found + 1)
                if not name or name == "(*temporary)" then break end
                found[#found + 1] = bytes(4, name)
            end
            insert(parts, 1, "[" .. concat(found, ",") .. "]")
        end
        level = level + 1
    end
    return "[" .. concat(parts, ",") .. "]"
end

local function put(kind, line, values, n, answers, m)
    local v, scope = encode_list(values, n), scopes()
    trace[#trace + 1] = format('{"k":"%s","line":%d,"v":%s,"t":%s,"a":%s,"n":%s}', kind, line, v, tables(), encode_list(answers, m), scope)
end

-- The line of the function that `level` levels up is running, -2 if it is unknown.
local function line_at(level)
    local info = getinfo(level + 1, "Sl")
    if not info or info.what == "tail" or info.what == "C" then return -2 end
    return info.currentline
end

local function begin()
    count = count + 1
    if count > MOST_EVENTS then error(STOP, 0) end
end

local function operation(kind, line, pick, ...)
    begin()
    local answer = pick()
    put(kind, line, { ... }, select("#", ...), { answer }, 1)
    return answer
end

local function pick_opaque() return opaque(8 * count) end
local function pick_number() if draw(2) == 0 then return opaque(8 * count) end return 2 end
local function pick_boolean() return draw(2) == 0 end
local function pick_index()
    local n = draw(4)
    if n == 0 then return nil elseif n == 1 then return 1 end
    return opaque(8 * count)
end

local function called(line, ...)
    begin()
    local answers, n = {}, 0
    local kind = draw(8)
    if kind < 3 then n = 0
    elseif kind == 3 then answers, n = { 3 }, 1
    elseif kind == 4 then answers, n = { count }, 1
    else
        n = kind - 4
        if n == 3 then n = 4 end
        for i = 1, n do answers[i] = opaque(8 * count + i - 1) end
    end
    put("call", line, { ... }, select("#", ...), answers, n)
    return unpack(answers, 1, n)
end

local function handlers(check)
    local meta = {}
    for name, kind in pairs({ __add = "ADD", __sub = "SUB", __mul = "MUL", __div = "DIV", __mod = "MOD", __pow = "POW", __concat = "CONCAT" }) do
        meta[name] = function(x, y)
            if not is_opaque(x) and not is_opaque(y) then
                error(kind == "CONCAT" and "attempt to concatenate" or "attempt to perform arithmetic", 2)
            end
            return operation(kind, line_at(2), kind == "CONCAT" and pick_opaque or pick_number, x, y), nil
        end
    end
    meta.__unm = function(x)
        if not is_opaque(x) then error("attempt to perform arithmetic", 2) end
        return operation("UNM", line_at(2), pick_number, x), nil
    end
    meta.__len = function(x)
        if not is_opaque(x) then error("attempt to get length", 2) end
        return operation("LEN", line_at(2), pick_number, x), nil
    end
    for name, kind in pairs({ __lt = "LT", __le = "LE" }) do
        meta[name] = function(x, y)
            if not is_opaque(x) or not is_opaque(y) then error("attempt to compare", 2) end
            return operation(kind, line_at(2), pick_boolean, x, y), nil
        end
    end
    meta.__index = function(x, key)
        if not is_opaque(x) then error("attempt to index", 2) end
        return operation("index", line_at(2), pick_index, x, key), nil
    end
    meta.__newindex = function(x, key, value)
        if not is_opaque(x) then error("attempt to index", 2) end
        local line = line_at(2)
        begin()
        put("setindex", line, { x, key, value }, 3, {}, 0)
    end
    return meta
end

-- What the environment gives, and functions: the globals of the outside are functions.
given = newproxy(true)
do
    local meta = getmetatable(given)
    for name, handler in pairs(handlers()) do meta[name] = handler end
    meta.__eq = function(x, y) return operation("EQ", line_at(2), pick_boolean, x, y), nil end
    meta.__call = function(...)
        local line = line_at(2)
        return called(line, ...)
    end
end

local function in_front(a, b)
    -- whether key a is in front of key b
    local order = { boolean = 1, number = 3, string = 4, table = 5, ["function"] = 6, userdata = 9 }
    local x, y = type(a), type(b)
    if x ~= y then return order[x] < order[y] end
    if x == "boolean" then return not a and b end
    if x == "number" then return a < b end
    if x == "string" then
        for i = 1, #a do
            if i > #b then return false end
            if byte(a, i) ~= byte(b, i) then return byte(a, i) < byte(b, i) end
        end
        return #a < #b
    end
    if x == "userdata" then return numbers[a] < numbers[b] end
    error(STOP, 0)
end

-- next, in the order of the specification
local function ordered_next(...)
    local subject, key = ...
    if type(subject) ~= "table" then error("bad argument", 2) end
    local found
    for candidate in rawnext, subject do
        if (key == nil or in_front(key, candidate)) and (found == nil or in_front(candidate, found)) then found = candidate end
    end
    if found == nil then return nil end
    return found, subject[found]
end

builtin[type], builtin[ordered_next] = 1, 2

local function environment()
    local assigned, known = {}, {}
    local set = {}
    return setmetatable({}, {
        __index = function(_, name)
            if known[name] then return assigned[name] end
            if name == "type" then return type elseif name == "next" then return ordered_next end
            if not externals[name] then
                local external
                external = function(...)
                    local line = line_at(2)
                    return called(line, external, ...)
                end
                externals[name] = external
                names[external] = name
            end
            return externals[name]
        end,
        __newindex = function(_, name, value)
            known[name], assigned[name] = true, value
            local line = line_at(2)
            -- names that a translation added are not counted: the specification knows which they are
            if not find(name, "__%lunify%", 1, true) then begin() end
            put("setglobal", line, { name, value }, 2, {}, 0)
        end,
    })
end

local MESSAGES = {
    { "attempt to call", "call-error" }, { "attempt to index", "index-error" }, { "attempt to perform arithmetic", "arith-error" },
    { "attempt to concatenate", "concat-error" }, { "attempt to compare", "compare-error" }, { "attempt to get length", "length-error" },
    { "table index is nil", "index-nil" }, { "'for' initial value", "for-initial" }, { "'for' limit", "for-limit" },
    { "'for' step", "for-step" }, { "bad argument", "argument" },
}

local function run(id, arguments, seed, chunk)
    trace, count, random, labels, shown, numbers, names, externals = {}, 0, seed, { count = 0 }, {}, {}, {}, {}
    local main, refusal = loadstring(chunk)
    if not main then return "refused: " .. refusal end
    setfenv(main, environment())
    local values = {}
    for i = 1, arguments do values[i] = opaque(1000 + i) end
    local problem, where
    local function failed(message)
        sethook()
        if rawequal(message, SPENT) or rawequal(message, STOP) or type(message) ~= "string" then problem = "cut" return end
        for _, entry in pairs(MESSAGES) do
            if find(message, entry[1], 1, true) then
                problem = entry[2]
                where = tonumber(match(message, ":(%-?%d+): ") or "-2")
                return
            end
        end
        problem = "cut"
    end
    sethook(function() error(SPENT, 0) end, "", MOST_INSTRUCTIONS)
    local function finished(good, ...)
        sethook()
        if good then put("return", -2, { ... }, select("#", ...), {}, 0)
        else trace[#trace + 1] = format('{"k":"%s","line":%d,"v":[],"t":[],"a":[],"n":[]}', problem == "cut" and "cut" or "error:" .. problem, where or -2)
        end
    end
    finished(xpcall(function() return main(unpack(values, 1, arguments)) end, failed))
    return ""
end

-- Functions share one metatable, so it is in force while a chunk runs, and the observer itself relies on none of it.
setmeta(run, handlers())

local out = assert(io.open(target, "w"))
for line in io.lines(source) do
    local id, arguments, seed, hex = match(line, "^(.-)|(%d+)|(%d+)|(%x*)$")
    local chunk = gsub(hex, "%x%x", function(pair) return char(tonumber(pair, 16)) end)
    local refusal = run(id, tonumber(arguments), tonumber(seed), chunk)
    refusal = gsub(refusal, '[^%w %.,:%-]', "?")
    out:write('{"id":"', id, '","err":"', refusal, '","trace":[', concat(trace, ","), "]}\n")
    out:flush()
end
out:close()
