// Dumps types, members and IL of an assembly as JSON.
using System;
using System.Collections.Generic;
using System.Globalization;
using System.IO;
using System.Linq;
using System.Text;
using Mono.Cecil;
using Mono.Cecil.Cil;

static class CsFacts
{
    static Mono.CompilerServices.SymbolWriter.MonoSymbolFile sym;

    static string Q(string s)
    {
        if (s == null) return "null";
        var b = new StringBuilder("\"");
        foreach (var c in s)
        {
            if (c == '"' || c == '\\') b.Append('\\').Append(c);
            else if (c < 0x20 || c > 0x7e) b.Append("\\u").Append(((int)c).ToString("x4"));
            else b.Append(c);
        }
        return b.Append('"').ToString();
    }

    static string L(IEnumerable<string> xs) { return "[" + string.Join(",", xs.ToArray()) + "]"; }

    static string Marshal(MarshalInfo m)
    {
        if (m == null) return "null";
        var a = m as ArrayMarshalInfo;
        if (a != null)
            return "{\"n\":" + Q(a.NativeType.ToString()) + ",\"e\":" + Q(a.ElementType.ToString()) + ",\"size\":" + a.Size + ",\"param\":" + a.SizeParameterIndex + "}";
        return "{\"n\":" + Q(m.NativeType.ToString()) + "}";
    }

    static string Attrs(ICustomAttributeProvider p)
    {
        return L(p.CustomAttributes.Select(a => "{\"t\":" + Q(a.AttributeType.FullName) + ",\"a\":" + L(a.ConstructorArguments.Select(x => Q(Convert.ToString(x.Value, CultureInfo.InvariantCulture)))) + ",\"p\":{" +
            string.Join(",", a.Fields.Concat(a.Properties).Select(x => Q(x.Name) + ":" + Q(Convert.ToString(x.Argument.Value, CultureInfo.InvariantCulture))).ToArray()) + "}}"));
    }

    static string MRef(MethodReference m)
    {
        string def = null;
        MethodDefinition d = null;
        try { d = m.Resolve(); } catch (Exception) { }
        if (d != null) def = d.FullName;
        var g = m as GenericInstanceMethod;
        return "{\"id\":" + Q(def ?? m.FullName) + ",\"ref\":" + Q(m.FullName) + ",\"cls\":" + Q((d != null ? (TypeReference)d.DeclaringType : m.DeclaringType).FullName) + ",\"n\":" + Q(m.Name) + ",\"this\":" + (m.HasThis ? "1" : "0") +
            ",\"ps\":" + L(m.Parameters.Select(x => Q(x.ParameterType.FullName))) + ",\"ret\":" + Q(m.ReturnType.FullName) +
            ",\"on\":" + Q(m.DeclaringType.FullName) + (g != null ? ",\"ga\":" + L(g.GenericArguments.Select(x => Q(x.FullName))) : "") + "}";
    }

    static string Operand(Instruction i)
    {
        var x = i.Operand;
        if (x == null) return "null";
        if (x is MethodReference) return MRef((MethodReference)x);
        var f = x as FieldReference;
        if (f != null)
        {
            FieldDefinition d = null;
            try { d = f.Resolve(); } catch (Exception) { }
            return "{\"f\":" + Q((d != null ? d.DeclaringType.FullName : f.DeclaringType.FullName) + "::" + f.Name) + ",\"t\":" + Q(f.FieldType.FullName) + ",\"init\":" + (d != null && d.IsInitOnly ? "1" : "0") + "}";
        }
        if (x is TypeReference) return "{\"t\":" + Q(((TypeReference)x).FullName) + "}";
        if (x is Instruction) return ((Instruction)x).Offset.ToString();
        if (x is Instruction[]) return L(((Instruction[])x).Select(y => y.Offset.ToString()));
        if (x is VariableDefinition) return "{\"v\":" + ((VariableDefinition)x).Index + "}";
        if (x is ParameterDefinition) return "{\"p\":" + ((ParameterDefinition)x).Index + ",\"n\":" + Q(((ParameterDefinition)x).Name) + "}";
        if (x is string) return "{\"s\":" + Q((string)x) + "}";
        return "{\"c\":" + Q(Convert.ToString(x, CultureInfo.InvariantCulture)) + "}";
    }

    static string Method(MethodDefinition m)
    {
        var b = new StringBuilder();
        b.Append("{\"id\":" + Q(m.FullName) + ",\"n\":" + Q(m.Name) + ",\"cls\":" + Q(m.DeclaringType.FullName) + ",\"static\":" + (m.IsStatic ? 1 : 0) + ",\"public\":" + (m.IsPublic ? 1 : 0) + ",\"private\":" + (m.IsPrivate ? 1 : 0) +
            ",\"virtual\":" + (m.IsVirtual ? 1 : 0) + ",\"abstract\":" + (m.IsAbstract ? 1 : 0) + ",\"ctor\":" + (m.IsConstructor ? 1 : 0) + ",\"ret\":" + Q(m.ReturnType.FullName) + ",\"retm\":" + Marshal(m.MethodReturnType.MarshalInfo));
        b.Append(",\"params\":" + L(m.Parameters.Select(p => "{\"n\":" + Q(p.Name) + ",\"t\":" + Q(p.ParameterType.FullName) + ",\"out\":" + (p.IsOut ? 1 : 0) + ",\"m\":" + Marshal(p.MarshalInfo) + "}")));
        b.Append(",\"over\":" + L(Overridden(m).Select(Q)));
        b.Append(",\"attrs\":" + Attrs(m));
        if (m.HasPInvokeInfo)
        {
            var p = m.PInvokeInfo;
            var cc = p.IsCallConvCdecl ? "cdecl" : p.IsCallConvStdCall ? "stdcall" : p.IsCallConvWinapi ? "winapi" : p.IsCallConvThiscall ? "thiscall" : p.IsCallConvFastcall ? "fastcall" : "?";
            var cs = p.IsCharSetAnsi ? "ansi" : p.IsCharSetUnicode ? "unicode" : p.IsCharSetAuto ? "auto" : "none";
            b.Append(",\"pinvoke\":{\"lib\":" + Q(p.Module.Name) + ",\"entry\":" + Q(p.EntryPoint) + ",\"cc\":" + Q(cc) + ",\"charset\":" + Q(cs) + ",\"lasterr\":" + (p.SupportsLastError ? 1 : 0) + "}");
        }
        if (m.HasBody)
        {
            var seq = new Dictionary<int, int>();
            if (sym != null)
            {
                var e = sym.GetMethodByToken(m.MetadataToken.ToInt32());
                if (e != null)
                {
                    foreach (var x in e.GetLineNumberTable().LineNumbers)
                        if (!x.IsHidden) seq[x.Offset] = x.Row;
                    b.Append(",\"file\":" + Q(e.CompileUnit.SourceFile.FileName));
                }
            }
            b.Append(",\"vars\":" + L(m.Body.Variables.Select(v => Q(v.VariableType.FullName))));
            var line = 0;
            b.Append(",\"il\":" + L(m.Body.Instructions.Select(i =>
            {
                int s;
                if (seq.TryGetValue(i.Offset, out s)) line = s;
                return "[" + i.Offset + "," + Q(i.OpCode.Name) + "," + Operand(i) + "," + line + "]";
            })));
            b.Append(",\"eh\":" + L(m.Body.ExceptionHandlers.Select(h => "{\"k\":" + Q(h.HandlerType.ToString()) + ",\"try\":[" + h.TryStart.Offset + "," + (h.TryEnd == null ? -1 : h.TryEnd.Offset) + "],\"handler\":[" + h.HandlerStart.Offset + "," + (h.HandlerEnd == null ? -1 : h.HandlerEnd.Offset) + "],\"t\":" + Q(h.CatchType == null ? null : h.CatchType.FullName) + (h.FilterStart != null ? ",\"filter\":" + h.FilterStart.Offset : "") + "}")));
        }
        return b.Append("}").ToString();
    }

    static IEnumerable<string> Overridden(MethodDefinition m)
    {
        var r = new List<string>();
        foreach (var o in m.Overrides) { MethodDefinition d = null; try { d = o.Resolve(); } catch (Exception) { } r.Add(d != null ? d.FullName : o.FullName); }
        if (m.IsVirtual)
        {
            var t = m.DeclaringType;
            var seen = new HashSet<string>();
            Action<TypeReference> go = null;
            go = x =>
            {
                if (x == null || !seen.Add(x.FullName)) return;
                TypeDefinition d = null;
                try { d = x.Resolve(); } catch (Exception) { }
                if (d == null) return;
                foreach (var y in d.Methods)
                    if (y != m && y.IsVirtual && y.Name == m.Name && y.Parameters.Count == m.Parameters.Count && (m.Overrides.Count == 0)
                        && Same(y, m)) r.Add(y.FullName);
                go(d.BaseType);
                foreach (var i in d.Interfaces) go(i.InterfaceType);
            };
            go(t.BaseType);
            foreach (var i in t.Interfaces) go(i.InterfaceType);
        }
        return r.Distinct();
    }

    static bool Same(MethodDefinition a, MethodDefinition b)
    {
        for (int i = 0; i < a.Parameters.Count; ++i)
        {
            var x = a.Parameters[i].ParameterType; var y = b.Parameters[i].ParameterType;
            if (x.FullName != y.FullName && !x.ContainsGenericParameter) return false;
        }
        return true;
    }

    static string Type(TypeDefinition t)
    {
        return "{\"id\":" + Q(t.FullName) + ",\"n\":" + Q(t.Name) + ",\"base\":" + Q(t.BaseType == null ? null : t.BaseType.FullName) + ",\"ifs\":" + L(t.Interfaces.Select(i => Q(i.InterfaceType.FullName))) +
            ",\"attrs\":" + Attrs(t) + ",\"outer\":" + Q(t.DeclaringType == null ? null : t.DeclaringType.FullName) + ",\"public\":" + (t.IsPublic || t.IsNestedPublic ? 1 : 0) + ",\"value\":" + (t.IsValueType ? 1 : 0) + ",\"enum\":" + (t.IsEnum ? 1 : 0) + ",\"iface\":" + (t.IsInterface ? 1 : 0) + ",\"layout\":" + Q(t.IsSequentialLayout ? "seq" : t.IsExplicitLayout ? "explicit" : "auto") + ",\"pack\":" + t.PackingSize + ",\"charset\":" + Q(t.IsUnicodeClass ? "unicode" : t.IsAnsiClass ? "ansi" : "auto") +
            ",\"consts\":{" + string.Join(",", t.Fields.Where(f => f.HasConstant && t.IsEnum).Select(f => Q(f.Name) + ":" + Convert.ToString(f.Constant, CultureInfo.InvariantCulture)).ToArray()) + "}" +
            ",\"fields\":" + L(t.Fields.Select(f => "{\"id\":" + Q(t.FullName + "::" + f.Name) + ",\"n\":" + Q(f.Name) + ",\"t\":" + Q(f.FieldType.FullName) + ",\"static\":" + (f.IsStatic ? 1 : 0) + ",\"init\":" + (f.IsInitOnly ? 1 : 0) + ",\"public\":" + (f.IsPublic ? 1 : 0) + ",\"const\":" + (f.IsLiteral ? 1 : 0) + ",\"off\":" + (t.IsExplicitLayout ? f.Offset : -1) + ",\"m\":" + Marshal(f.MarshalInfo) + "}")) +
            ",\"methods\":" + L(t.Methods.Select(Method)) + "}";
    }

    static IEnumerable<TypeDefinition> All(TypeDefinition t)
    {
        yield return t;
        foreach (var n in t.NestedTypes)
            foreach (var x in All(n)) yield return x;
    }

    static int Main(string[] a)
    {
        var r = new DefaultAssemblyResolver();
        for (int i = 2; i < a.Length; ++i) r.AddSearchDirectory(a[i]);
        var asm = AssemblyDefinition.ReadAssembly(a[0], new ReaderParameters { AssemblyResolver = r });
        if (File.Exists(a[0] + ".mdb")) sym = Mono.CompilerServices.SymbolWriter.MonoSymbolFile.ReadSymbolFile(a[0] + ".mdb");
        var w = new StreamWriter(a[1]);
        w.Write("{\"types\":[\n");
        var first = true;
        foreach (var t in asm.MainModule.Types)
            foreach (var x in All(t))
            {
                if (!first) w.Write(",\n");
                first = false;
                w.Write(Type(x));
            }
        w.Write("]}\n");
        w.Close();
        return 0;
    }
}
