"""Edits for C40."""
F = "include/NeoFOAM/finiteVolume/cellCentred/"
SI = F + "interpolation/surfaceInterpolation.hpp"
FN = F + "faceNormalGradient/faceNormalGradient.hpp"
DI = F + "operators/divOperator.hpp"
LA = F + "operators/laplacianOperator.hpp"
GD = F + "operators/gaussGreenDiv.hpp"
GL = F + "operators/gaussGreenLaplacian.hpp"
SG = F + "operators/surfaceIntegrate.hpp"
IM = "include/NeoFOAM/dsl/implicit.hpp"
EX = "src/dsl/explicit.cpp"
SO = "include/NeoFOAM/linearAlgebra/solver.hpp"
EDITS = [
    ("sel-si-key", [(SI, '.get<std::string>("surfaceInterpolation")', '.get<std::string>("interpolation")')], ["C40"]),
    ("sel-fn-key", [(FN, '.get<std::string>("faceNormalGradient")', '.get<std::string>("surfaceInterpolation")')], ["C40"]),
    ("sel-div-key", [(DI, '.get<std::string>("DivOperator")', '.get<std::string>("divOperator")')], ["C40"]),
    ("sel-la-key", [(LA, '.get<std::string>("LaplacianOperator")', '.get<std::string>("DivOperator")')], ["C40"]),
    ("sel-so-key", [(SO, 'dict.get<std::string>("solver")', 'dict.get<std::string>("type")')], ["C40"]),
    ("sel-so-noerr", [(SO, '        SolverFactory::keyExistsOrError(key);\n', '')], []),
    ("sel-div-peek", [(DI, 'std::get<TokenList>(inputs).next<std::string>();', 'std::get<TokenList>(inputs).get<std::string>(0);')], ["C40"]),
    ("sel-la-copytok", [(LA, '''        std::string key = (std::holds_alternative<Dictionary>(inputs))
                            ? std::get<Dictionary>(inputs).get<std::string>("LaplacianOperator")
                            : std::get<TokenList>(inputs).next<std::string>();''',
     '''        std::string key;
        if (std::holds_alternative<Dictionary>(inputs))
        {
            key = std::get<Dictionary>(inputs).get<std::string>("LaplacianOperator");
        }
        else
        {
            TokenList tokens = std::get<TokenList>(inputs);
            key = tokens.next<std::string>();
        }''')], ["C40"]),
    ("sel-ok-la-ref", [(LA, '''        std::string key = (std::holds_alternative<Dictionary>(inputs))
                            ? std::get<Dictionary>(inputs).get<std::string>("LaplacianOperator")
                            : std::get<TokenList>(inputs).next<std::string>();''',
     '''        std::string key;
        if (std::holds_alternative<TokenList>(inputs))
        {
            const TokenList& tokens = std::get<TokenList>(inputs);
            key = tokens.next<std::string>();
        }
        else
        {
            key = std::get<Dictionary>(inputs).get<std::string>("LaplacianOperator");
        }''')], []),
    ("sel-si-flux", [(SI, '        interpolationKernel_->interpolate(flux, src, dst);', '        interpolationKernel_->interpolate(src, dst);')], ["C40"]),
    ("sel-si-weightflux", [(SI, '        interpolationKernel_->weight(flux, src, weight);', '        interpolationKernel_->weight(src, weight);')], ["C40"]),
    ("sel-si-order", [(GL, '''surfaceInterpolation_(exec, mesh, inputs),
          faceNormalGradient_(exec, mesh, inputs),''', '''surfaceInterpolation_(exec, mesh, inputs),
          faceNormalGradient_(exec, mesh, Input(inputs)),''')], ["C40"]),
    ("sel-gl-member-order", [(GL, '''    SurfaceInterpolation<ValueType> surfaceInterpolation_;

    FaceNormalGradient<ValueType> faceNormalGradient_;
''', '''    FaceNormalGradient<ValueType> faceNormalGradient_;

    SurfaceInterpolation<ValueType> surfaceInterpolation_;
''')], ["C40"]),
    ("sel-gl-vol", [(GL, '''            faceNormalGradient_, gamma, phi, lapPhi.internalField(), operatorScaling''', '''            faceNormalGradient_, gamma, lapPhi, phi.internalField(), operatorScaling''')], ["C24"]),
    ("sel-gl-coeff", [(GL, '''        computeLaplacianExp<ValueType>(faceNormalGradient_, gamma, phi, lapPhi, operatorScaling);''', '''        computeLaplacianExp<ValueType>(faceNormalGradient_, gamma, phi, lapPhi, dsl::Coeff(1.0));''')], ["C24"]),
    ("sel-gd-coeff", [(GD, '''        computeDivImp(ls, faceFlux, phi, operatorScaling, *sparsityPattern_.get());''', '''        computeDivImp(ls, faceFlux, phi, dsl::Coeff(), *sparsityPattern_.get());''')], ["C26"]),
    ("sel-div-noscale", [(DI, '''        const auto operatorScaling = this->getCoefficient();
        divOperatorStrategy_->div(ls, faceFlux_, this->getField(), operatorScaling);
    }

    void div(Field''', '''        divOperatorStrategy_->div(ls, faceFlux_, this->getField(), dsl::Coeff(1.0));
    }

    void div(Field''')], ["C40"]),
    ("sel-div-over", [(DI, '''        divOperatorStrategy_->div(tmpsource, faceFlux_, this->getField(), operatorScaling);
        source += tmpsource;''', '''        divOperatorStrategy_->div(source, faceFlux_, this->getField(), operatorScaling);''')], ["C24"]),
    ("sel-div-minus", [(DI, '''        source += tmpsource;''', '''        source -= tmpsource;''')], ["C24"]),
    ("sel-la-assign", [(LA, '''        source += tmpsource;''', '''        source = tmpsource;''')], ["C24"]),
    ("sel-sg-assign", [(SG, '''        source += tmpsource;''', '''        source = tmpsource;''')], ["C24"]),
    ("sel-sg-coeff", [(SG, '''          coeffs_(surfaceIntegrate.coeffs_) {};''', '''          coeffs_(1.0) {};''')], ["C29"]),
    ("sel-sg-swap", [(SG, '''            mesh.faceNeighbour().view(),
            mesh.faceOwner().view(),''', '''            mesh.faceOwner().view(),
            mesh.faceNeighbour().view(),''')], ["C24"]),
    ("sel-div-name", [(DI, '''"div(" + faceFlux_.name + "," + this->getField().name + ")"''', '''"div(" + this->getField().name + "," + faceFlux_.name + ")"''')], ["C40"]),
    ("sel-div-sub", [(DI, '''dict.subDict("divSchemes")''', '''dict.subDict("laplacianSchemes")''')], ["C40"]),
    ("sel-la-name", [(LA, '''"laplacian(" + gamma_.name + "," + this->field_.name + ")"''', '''"laplacian(" + this->field_.name + ")"''')], ["C40"]),
    ("sel-la-once", [(LA, '''    void build(const Input& input)
    {
''', '''    void build(const Input& input)
    {
        if (laplacianOperatorStrategy_) return;
''')], ["C40"]),
    ("sel-ok-la-mutdict", [(LA, '''auto tokens = dict.subDict("laplacianSchemes").get<NeoFOAM::TokenList>(schemeName);''', '''const auto& schemes = dict.subDict("laplacianSchemes");
            TokenList tokens = schemes.get<NeoFOAM::TokenList>(schemeName);''')], []),
    ("sel-div-dictref", [(DI, '''auto tokens = dict.subDict("divSchemes").get<NeoFOAM::TokenList>(schemeName);
            divOperatorStrategy_ =
                DivOperatorFactory<ValueType>::create(this->exec(), mesh, tokens);''', '''divOperatorStrategy_ = DivOperatorFactory<ValueType>::create(
                this->exec(), mesh, dict.subDict("divSchemes")
            );''')], ["C40"]),
    ("sel-div-clone-null", [(DI, '''divOp.divOperatorStrategy_ ? divOp.divOperatorStrategy_->clone() : nullptr''', '''nullptr''')], ["C29"]),
    ("sel-imp-explicit", [(IM, '''fvcc::LaplacianOperator<ValueType>(dsl::Operator::Type::Implicit,''', '''fvcc::LaplacianOperator<ValueType>(dsl::Operator::Type::Explicit,''')], ["C40"]),
    ("sel-exp-implicit", [(EX, '''fvcc::DivOperator(dsl::Operator::Type::Explicit,''', '''fvcc::DivOperator(dsl::Operator::Type::Implicit,''')], ["C40"]),
    ("sel-exp-source", [(EX, '''fvcc::SourceTerm(dsl::Operator::Type::Explicit, coeff, phi)''', '''fvcc::SourceTerm(dsl::Operator::Type::Explicit, phi, coeff)''')], ["C40"]),
    ("sel-ok-exp-auto", [(EX, '''    return SpatialOperator<scalar>(fvcc::SourceTerm(dsl::Operator::Type::Explicit, coeff, phi));''', '''    auto term = fvcc::SourceTerm<scalar>(dsl::Operator::Type::Explicit, coeff, phi);
    return SpatialOperator<scalar>(term);''')], []),
    ("sel-ok-sg-auto", [(SG, '''        const auto operatorScaling = this->getCoefficient();

        const UnstructuredMesh& mesh = flux_.mesh();''', '''        const UnstructuredMesh& mesh = flux_.mesh();
        const dsl::Coeff operatorScaling(coeffs_);''')], []),
    ("sel-ok-div-field", [(DI, '''        divOperatorStrategy_->div(tmpsource, faceFlux_, this->getField(), operatorScaling);
        source += tmpsource;''', '''        this->div(tmpsource);
        source += tmpsource;''')], []),
    ("sel-ok-div-build", [(DI, '''        const UnstructuredMesh& mesh = this->getField().mesh();
        if (std::holds_alternative<NeoFOAM::Dictionary>(input))
        {
            auto dict = std::get<NeoFOAM::Dictionary>(input);
            std::string schemeName = "div(" + faceFlux_.name + "," + this->getField().name + ")";
            auto tokens = dict.subDict("divSchemes").get<NeoFOAM::TokenList>(schemeName);
            divOperatorStrategy_ =
                DivOperatorFactory<ValueType>::create(this->exec(), mesh, tokens);
        }
        else
        {
            auto tokens = std::get<NeoFOAM::TokenList>(input);
            divOperatorStrategy_ =
                DivOperatorFactory<ValueType>::create(this->exec(), mesh, tokens);
        }''', '''        const auto schemeTokens = [&]() -> TokenList
        {
            if (!std::holds_alternative<NeoFOAM::Dictionary>(input))
            {
                return std::get<NeoFOAM::TokenList>(input);
            }
            Dictionary dict = std::get<NeoFOAM::Dictionary>(input);
            const std::string args = faceFlux_.name + "," + this->field_.name;
            return dict.subDict("divSchemes").template get<NeoFOAM::TokenList>("div(" + args + ")");
        };
        divOperatorStrategy_ = DivOperatorFactory<ValueType>::create(
            this->getField().exec(), this->getField().mesh(), schemeTokens()
        );''')], []),
    ("sel-ok-so-ref", [(SO, '''        auto key = dict.get<std::string>("solver");
        SolverFactory::keyExistsOrError(key);
        return SolverFactory::table().at(key)(exec, dict);''', '''        const std::string& key = dict.get<std::string>("solver");
        SolverFactory::keyExistsOrError(key);
        const auto& creator = SolverFactory::table().at(key);
        return creator(exec, dict);''')], []),
    ("sel-si-dupl", [(SI, '''          interpolationKernel_(surfInterp.interpolationKernel_->clone()) {};''', '''          interpolationKernel_(
              surfInterp.interpolationKernel_ ? surfInterp.interpolationKernel_->clone() : nullptr
          ) {};''')], []),
    ("sel-fn-named", [(FN, '''"interpolated_" + volField.name''', '''"faceNormalGrad_" + volField.name''')], []),
    ("sel-ok-div-scale", [(DI, """        divOperatorStrategy_->div(tmpsource, faceFlux_, this->getField(), operatorScaling);
        source += tmpsource;""", """        divOperatorStrategy_->div(tmpsource, faceFlux_, this->getField(), dsl::Coeff(1.0));
        const auto sourceView = source.view();
        const auto addView = tmpsource.view();
        NeoFOAM::parallelFor(
            source.exec(),
            source.range(),
            KOKKOS_LAMBDA(const size_t i) { sourceView[i] += operatorScaling[i] * addView[i]; }
        );""")], []),
    ("sel-fn-nocall", [(FN, '''        faceNormalGrad(volField, surfaceField);
''', '')], ["C40"]),
]
